"""Contracts of the scaling: the maps for any scaling in use, and the scaling that is chosen, after any order of calls."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond, sum_range
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, D, delta, power, fresh, mk_sum, fn
from .prover import Ob, Post, Inputs, make, Broken, Outside
from .c_layout import fr
from .c_cov import callee, same, flag

HALF = Fraction(1, 2)
N, DIM, M, NC, NX, L = sym('n'), sym('dim'), sym('m'), sym('nc'), sym('nx'), sym('l')
RS = 'gpgradpy.src.base.Rescaling:Rescaling'
GP = 'gpgradpy.src.GaussianProcess:GaussianProcess'
Z = ip(0)


def s(d): return S('s', d)
def t(d): return S('t', d)


def _scaled(w, d):
    return make(w.get(RS), x_shift=d['t'], xvec_scale=d['s'], obj_shift=d['o'], obj_scale=d['a'], nlc_shift=d.get('ns'), nlc_scale=d.get('na'),
                _xdata_set=True, _obj_data_set=True, _nlc_data_set=True, dim=d['s'].size)


def _sin():
    return Inputs().real('s', DIM, pos=True).real('t', DIM).real('o').real('a', pos=True).real('ns', M).real('na', pos=True)


# ---------------------------------------------------------------- C13: maps
def maps():
    out = []

    # points
    for two in (True, False):
        sh = (NX, DIM) if two else (DIM,)

        def run(w, d):
            o = _scaled(w, d)
            z = o.x_init_2_scl(d['x'])
            y = o.x_scl_2_init(d['x'])
            return dict(z=z, y=y, zy=o.x_scl_2_init(z), yz=o.x_init_2_scl(y))

        def posts(d, o, two=two):
            k = fr(DIM, 'k')
            I = (fr(NX, 'i'), k) if two else (k,)
            return [Post('scaled point', 'z', I, lambda: (S('x', *I) - t(k)) * s(k)), Post('unscaled point', 'y', I, lambda: S('x', *I) * power(s(k), -1) + t(k)),
                    Post('unscaled(scaled point)', 'zy', I, lambda: S('x', *I)), Post('scaled(unscaled point)', 'yz', I, lambda: S('x', *I))]
        out.append(Ob(f'x_init_2_scl, x_scl_2_init {"points" if two else "one point"}', ['C13', 'C20'],
                      ['RescalingXdata.x_init_2_scl', 'RescalingXdata.x_scl_2_init'], lambda sh=sh: _sin().real('x', *sh), run, posts,
                      shapes=dict(z=sh, y=sh, zy=sh, yz=sh), partial=True))

    # distances
    def run(w, d):
        o = _scaled(w, d)
        z, y = o.dist_init_2_scl(d['v']), o.dist_scl_2_init(d['v'])
        return dict(z=z, y=y, zy=o.dist_scl_2_init(z))

    def posts(d, o):
        def m():
            b = fresh(DIM)
            return mk_sum(s(sym(b)), b) * power(T(DIM), -1)
        return [Post('scaled distance', 'z', (), lambda: S('v') * m()), Post('unscaled distance', 'y', (), lambda: S('v') * power(m(), -1)),
                Post('unscaled(scaled distance)', 'zy', (), lambda: S('v'))]
    out.append(Ob('dist_init_2_scl, dist_scl_2_init', ['C13'], ['RescalingXdata.dist_init_2_scl', 'RescalingXdata.dist_scl_2_init'],
                  lambda: _sin().real('v', pos=True), run, posts, partial=True))

    # objective
    NM = ('mu', 'sig', 'g', 'sg', 'h', 'sh')
    shp = dict(mu=(NX,), sig=(NX,), g=(NX, DIM), sg=(NX, DIM), h=(NX, DIM, DIM), sh=(NX, DIM, DIM))
    for given in (NM, ('mu', 'g'), ('mu',), ('mu', 'sig'), ('mu', 'sig', 'g', 'sg'), ('sig', 'sg', 'sh')):
        def inputs(given=given):
            i = _sin()
            for k in given:
                i.real(k, *shp[k])
            return i

        def run(w, d, given=given):
            o = _scaled(w, d)
            args = [d.get(k) for k in NM]
            z = o.obj_init_2_scl(*args)
            y = o.obj_scl_2_init(*args)
            zy = o.obj_scl_2_init(*z)
            r = {}
            for k, a, b, c in zip(NM, z, y, zy):
                if (a is None) != (k not in given) or (b is None) != (k not in given) or (c is None) != (k not in given):
                    raise Broken('data that is (not) given')
                if a is not None:
                    r.update({'z' + k: a, 'y' + k: b, 'r' + k: c})
            return r

        def posts(d, o, given=given):
            i, k, e = fr(NX, 'i'), fr(DIM, 'k'), fr(DIM, 'e')
            ix = dict(mu=(i,), sig=(i,), g=(i, k), sg=(i, k), h=(i, k, e), sh=(i, k, e))
            l = []
            for nm in given:
                I = ix[nm]
                x = (lambda nm=nm, I=I: S(nm, *I))
                sc = (lambda n=len(I): {1: ONE, 2: power(s(k), -1), 3: power(s(k) * s(e), -1)}[n] * S('a'))
                off = (lambda nm=nm: S('o') if nm == 'mu' else ZERO)
                l += [Post(f'scaled {nm}', 'z' + nm, I, lambda x=x, sc=sc, off=off: (x() - off()) * sc()),
                      Post(f'unscaled {nm}', 'y' + nm, I, lambda x=x, sc=sc, off=off: x() * power(sc(), -1) + off()),
                      Post(f'unscaled(scaled {nm})', 'r' + nm, I, x)]
            return l
        out.append(Ob(f'obj_init_2_scl, obj_scl_2_init {",".join(given)}', ['C13', 'C20'], ['RescalingObjData.obj_init_2_scl', 'RescalingObjData.obj_scl_2_init'],
                      inputs, run, posts, shapes={p + k: shp[k] for k in given for p in 'zyr'}, partial=True))

    # constraints
    shc = dict(mu=(NX, M), sig=(NX, M), g=(NX, M, DIM), sg=(NX, M, DIM), h=(L, DIM, DIM), sh=(L, DIM, DIM))
    for given in (NM, ('mu', 'sig', 'g', 'sg'), ('mu', 'sig')):
        def inputs(given=given):
            i = _sin()
            for k in given:
                i.real(k, *shc[k])
            return i

        def run(w, d, given=given):
            o = _scaled(w, d)
            args = [d.get(k) for k in NM]
            z, y = o.nlc_init_2_scl(*args), o.nlc_scl_2_init(*args)
            zy = o.nlc_scl_2_init(*z)
            r = {}
            for k, a, b, c in zip(NM, z, y, zy):
                if (a is None) != (k not in given) or (b is None) != (k not in given) or (c is None) != (k not in given):
                    raise Broken('data that is (not) given')
                if a is not None:
                    r.update({'z' + k: a, 'y' + k: b, 'r' + k: c})
            return r

        def posts(d, o, given=given):
            i, j, k, e, q = fr(NX, 'i'), fr(M, 'j'), fr(DIM, 'k'), fr(DIM, 'e'), fr(L, 'q')
            ix = dict(mu=(i, j), sig=(i, j), g=(i, j, k), sg=(i, j, k), h=(q, k, e), sh=(q, k, e))
            l = []
            for nm in given:
                I = ix[nm]
                x = (lambda nm=nm, I=I: S(nm, *I))
                sc = (lambda nm=nm: {'mu': ONE, 'sig': ONE, 'g': power(s(k), -1), 'sg': power(s(k), -1)}.get(nm, power(s(k) * s(e), -1)) * S('na'))
                off = (lambda nm=nm: S('ns', j) if nm == 'mu' else ZERO)
                l += [Post(f'scaled {nm}', 'z' + nm, I, lambda x=x, sc=sc, off=off: (x() - off()) * sc()),
                      Post(f'unscaled {nm}', 'y' + nm, I, lambda x=x, sc=sc, off=off: x() * power(sc(), -1) + off()),
                      Post(f'unscaled(scaled {nm})', 'r' + nm, I, x)]
            return l
        out.append(Ob(f'nlc_init_2_scl, nlc_scl_2_init {",".join(given)}', ['C13', 'C20'],
                      ['RescalingNonlincon.nlc_init_2_scl', 'RescalingNonlincon.nlc_scl_2_init'], inputs, run, posts,
                      shapes={p + k: shc[k] for k in given for p in 'zyr'}, partial=True))

    # bounds and linear constraints
    def run(w, d):
        o = _scaled(w, d)
        lb, ub = o.boxcon_init_2_scl(d['lb'], d['ub'])
        A, la, ua = o.lincon_init_2_scl(d['A'], d['la'], d['ua'])
        r = A @ o.x_init_2_scl(d['x'])
        return dict(lb=lb, ub=ub, A=A, lo=r - la, hi=ua - r)

    def posts(d, o):
        k, c = fr(DIM, 'k'), fr(NC, 'c')

        def Ax():
            b = fresh(DIM)
            return mk_sum(S('A', c, sym(b)) * S('x', sym(b)), b)
        return [Post('lower bound', 'lb', (k,), lambda: (S('lb', k) - t(k)) * s(k)), Post('upper bound', 'ub', (k,), lambda: (S('ub', k) - t(k)) * s(k)),
                Post('matrix of the linear constraints', 'A', (c, k), lambda: S('A', c, k) * power(s(k), -1)),
                Post('distance to the lower bounds at any point', 'lo', (c,), lambda: Ax() - S('la', c)),
                Post('distance to the upper bounds at any point', 'hi', (c,), lambda: S('ua', c) - Ax())]
    out.append(Ob('boxcon_init_2_scl, lincon_init_2_scl', ['C13', 'C20'], ['RescalingLincon.boxcon_init_2_scl', 'RescalingLincon.lincon_init_2_scl'],
                  lambda: _sin().real('lb', DIM).real('ub', DIM).real('A', NC, DIM).real('la', NC).real('ua', NC).real('x', DIM), run, posts,
                  shapes=dict(lb=(DIM,), ub=(DIM,), A=(NC, DIM)), partial=True))
    return out


# ---------------------------------------------------------------- C14: choice of the scaling
def mindist(n, x, kind):
    """extremum of the distance between two (different) points of x"""
    def dist(i, e):
        b = fresh(DIM)
        q = power(mk_sum((x(i[0], sym(b)) - x(i[1], sym(b))) ** 2, b), HALF)
        return q + delta(i[0] - i[1]) * npshim.NAN if kind == 'min' else q
    return npshim._extreme(kind, Arr((n, n), dist)).fn((), {})


def chosen():
    out = []
    orders = ['obj nlc box lin |', '| obj nlc box lin', 'lin obj | box nlc', 'box | lin obj nlc', 'obj box | nlc lin']
    k = 0
    for mtd in (None, 'set_vmin', 'set_vmax'):
        for gs in (False, True):
            for gt in (False, True):
                for use in (True, False):
                    out.append(_chosen(mtd, gs, gt, use, orders[k % len(orders)], k))
                    k += 1
    return out


def _chosen(mtd, gs, gt, use, order, k):
    dist, best, om, nm, ush = k % 2 == 0, k % 3 != 0, k % 2 == 1, k % 4 < 2, k % 3 != 1
    before, after = [p.split() for p in order.split('|')]

    def inputs():
        i = Inputs().real('x', N, DIM).real('f', N).real('sf', N).real('g', N, DIM).real('sg', N, DIM).real('h', N, M).real('sh', N, M)
        i.real('dh', N, M, DIM).real('sdh', N, M, DIM).real('lb', DIM).real('ub', DIM).real('A', NC, DIM).real('la', NC).real('ua', NC)
        i.real('s1', DIM, pos=True).real('t1', DIM).real('ds', pos=True).int('ib', sym('ib')).assume(Cond('>=', N - 2), Cond('>=', sym('ib')), Cond('>=', N - 1 - sym('ib')))
        return i

    def do(o, d, what):
        if what == 'obj':
            o.set_obj_data(d['f'], d['sf'], d['g'], d['sg'], use_obj_shift=ush, obj_scl_method='dflt_max' if om else None)
        elif what == 'nlc':
            o.set_nlc_data(d['h'], d['sh'], d['dh'], d['sdh'], use_nlc_shift=ush, nlc_scl_method='obj_scl' if nm and 'obj' in order[:order.index('nlc')] else None)
        elif what == 'box':
            o.set_boxcon(d['lb'], d['ub'])
        else:
            o.set_lincon(d['A'], d['la'], d['ua'])

    def run(w, d):
        if mtd == 'set_vmax' and not w.sym and not (d['x'] != d['x'][0]).any():
            raise Outside('no two different points')
        C = w.get(RS)
        o = C(d['x'], idx_xbest=d['ib'] if best else None, use_x_shift=use, x_scl_method=mtd, dist_set=d['ds'] if dist else None)
        for q in before:
            do(o, d, q)
        o.set_xscale_data(x_shift_in=d['t1'] if gt else None, xvec_scale_in=d['s1'] if gs else None)
        for q in after:
            do(o, d, q)
        z, R = o.get_scl_x_w_dist()
        r = dict(z=z, R=R, x=o.get_init_x(), t=o.x_shift, s=o.xvec_scale)
        r.update(zip(('f', 'sf', 'g', 'sg'), o.get_scl_obj_data()))
        r.update(zip(('h', 'sh', 'dh', 'sdh'), o.get_scl_nlc_data()))
        r.update(zip(('lb', 'ub'), o.get_scl_boxcon()))
        r.update(zip(('A', 'la', 'ua'), o.get_scl_lincon()))
        given = [(o.get_init_obj_data(), ('f', 'sf', 'g', 'sg')), (o.get_init_nlc_data(), ('h', 'sh', 'dh', 'sdh')), (o.get_init_boxcon(), ('lb', 'ub')),
                 (o.get_init_lincon(), ('A', 'la', 'ua')), ([o.get_scl_x()], ('z',))]
        r['given'] = flag(all(len(a) == len(b) and all(same(u, r[v] if v == 'z' else d[v]) for u, v in zip(a, b)) for a, b in given))
        if mtd == 'set_vmin':
            r['dist'] = o.calc_dist_min(z) if hasattr(o, 'calc_dist_min') else w.get('gpgradpy.src.base.CommonFun:CommonFun').calc_dist_min(z)
        if mtd == 'set_vmax':
            r['dist'] = w.get('gpgradpy.src.base.CommonFun:CommonFun').calc_dist_max(z)
        return r

    def posts(d, o):
        i, j, p, q, c, m = fr(N, 'i'), fr(N, 'j'), fr(DIM, 'p'), fr(DIM, 'q'), fr(NC, 'c'), fr(M, 'm')
        ib = sym('ib') if best else N - 1

        def tt(a):
            return S('t1', a) if gt else (S('x', ib, a) if use else ZERO)

        def raw(a):
            return S('s1', a) if gs else ONE

        def d0():
            """distance of the points with the given relative scaling"""
            return mindist(N, lambda a, b: S('x', a, b) * raw(b), 'min' if mtd == 'set_vmin' else 'max')

        def target():
            return S('ds') if dist else ONE

        def coeff():
            if mtd is None:
                return ONE
            v = d0()
            if mtd == 'set_vmin':
                tol = T(Fraction(1, 10 ** 14))
                if not eng.must(RealCond('>=', tol - v)):
                    return target() * power(v, -1)
                return target() * power(tol, -1)
            return target() * power(v, -1)

        def ss(a):
            return raw(a) * coeff()
        lobj = order.index('obj') < order.index('nlc')

        def oscale():
            if not om:
                return ONE
            v = npshim._extreme('max', d['f']).fn((), {}) - npshim._extreme('min', d['f']).fn((), {}) if w_sym(d) else ZERO
            tol = T(Fraction(1, 10 ** 20))
            if not eng.must(RealCond('>=', tol - v)):
                return 100 * power(v, -1)
            return 100 * power(tol, -1)

        def oshift():
            return S('f', ib) if ush else ZERO

        def nscale():
            return oscale() if nm and lobj else ONE

        def nshift(b):
            return S('h', ib, b) if ush else ZERO

        def dotA():
            b = fresh(DIM)
            return mk_sum(S('A', c, sym(b)) * tt(sym(b)), b)
        inv = (lambda a: power(ss(a), -1))
        l = [Post('the data before the scaling', 'given', (), lambda: ONE), Post('shift', 't', (p,), lambda: tt(p)), Post('scale', 's', (p,), lambda: ss(p)), Post('scaled points', 'z', (i, p), lambda: (S('x', i, p) - tt(p)) * ss(p)),
             Post('differences of the scaled points', 'R', (p, i, j), lambda: (S('x', i, p) - S('x', j, p)) * ss(p)), Post('points', 'x', (i, p), lambda: S('x', i, p)),
             Post('scaled values', 'f', (i,), lambda: (S('f', i) - oshift()) * oscale()), Post('scaled standard deviations', 'sf', (i,), lambda: S('sf', i) * oscale()),
             Post('scaled gradients', 'g', (i, p), lambda: S('g', i, p) * inv(p) * oscale()),
             Post('scaled standard deviations of the gradients', 'sg', (i, p), lambda: S('sg', i, p) * inv(p) * oscale()),
             Post('scaled constraints', 'h', (i, m), lambda: (S('h', i, m) - nshift(m)) * nscale()), Post('their standard deviations', 'sh', (i, m), lambda: S('sh', i, m) * nscale()),
             Post('their gradients', 'dh', (i, m, p), lambda: S('dh', i, m, p) * inv(p) * nscale()),
             Post('standard deviations of their gradients', 'sdh', (i, m, p), lambda: S('sdh', i, m, p) * inv(p) * nscale()),
             Post('lower bounds', 'lb', (p,), lambda: (S('lb', p) - tt(p)) * ss(p)), Post('upper bounds', 'ub', (p,), lambda: (S('ub', p) - tt(p)) * ss(p)),
             Post('linear constraints', 'A', (c, p), lambda: S('A', c, p) * inv(p)), Post('their lower bounds', 'la', (c,), lambda: S('la', c) - dotA()),
             Post('their upper bounds', 'ua', (c,), lambda: S('ua', c) - dotA())]
        if mtd is not None:
            pre = (RealCond('>', d0() - T(Fraction(1, 10 ** 14))),) if mtd == 'set_vmin' else (RealCond('>', d0()),)
            l.append(Post('the requested distance', 'dist', (), target, pre=pre))
        return l
    nmx = f'Rescaling {mtd}{" relative scale" if gs else ""}{" shift" if gt else ""}{"" if use else " unshifted"} [{order}]'
    return Ob(nmx, ['C14', 'C22'], ['Rescaling.__init__', 'Rescaling.set_obj_data', 'Rescaling.set_nlc_data', 'Rescaling.set_boxcon', 'Rescaling.set_lincon',
                             'RescalingXdata.set_xscale_data', 'RescalingXdata._calc_x_shift_n_scale', 'RescalingXdata._calc_x2_isoscaling',
                             'RescalingObjData._calc_obj_scaling', 'RescalingObjData.set_obj_scaling', 'RescalingNonlincon._calc_nlc_scaling',
                             'RescalingNonlincon.set_nlc_scaling'], inputs, run, posts,
              shapes=dict(z=(N, DIM), R=(DIM, N, N), s=(DIM,), t=(DIM,)))


def w_sym(d):
    return isinstance(d['f'], Arr)


# ---------------------------------------------------------------- C14: scaling proposed from optimised theta
def proposed():
    return [_proposed(lg, vary) for lg in (True, False) for vary in (True, False)]


def _proposed(lg, vary):
    """the proposed scaling: theta made isotropic (its geometric mean times a factor), and the required minimum distance"""
    tol = T(Fraction(1, 10 ** 15))

    def inputs():
        return Inputs().real('x', N, DIM).real('s', DIM, pos=True).real('th', DIM, pos=not lg).real('v', pos=True).int('n', N).int('dim', DIM).assume(Cond('>=', N - 2))

    def run(w, d):
        ok = []

        def vreq(n_eval, dim=None):
            ok.append(same(n_eval, d['n']) and (dim is None or same(dim, d['dim'])))
            return d['v']
        z = d['x'] * d['s'][None, :]
        k = dict(vmin_rescale_eta_vary=d['v']) if vary else dict(calc_mtd_rescale_origin_vreq=vreq)
        o = make(w.get(GP), optz_log_hp_theta=lg, dim=d['dim'], wellcond_mtd='rescale_eta_vary' if vary else 'rescale_origin', **k)
        th, q, s2 = o.rescaling_data_w_theta_sol(z, d['s'], d['th'])
        t2 = 10 ** th if lg else th
        return dict(th=th, q=q, s=s2, same=t2 * s2 ** 2, dist=w.get('gpgradpy.src.base.CommonFun:CommonFun').calc_dist_min(d['x'] * s2[None, :]), what=flag(all(ok)))

    def posts(d, o):
        k = fr(DIM, 'k')

        def theta(a):
            return power(T(10), S('th', a)) if lg else S('th', a)

        def logs(a):
            return S('th', a) if lg else npshim.log10(S('th', a)).fn((), {})

        def total(f):
            b = fresh(DIM)
            return mk_sum(f(sym(b)), b)

        def bar():
            return power(T(10), total(logs) * power(T(DIM), -1))

        def rel(a):
            return S('s', a) * power(theta(a), HALF) * power(bar(), -HALF)

        def d0():
            return mindist(N, lambda a, b: S('x', a, b) * rel(b), 'min')

        def corr():
            v = d0()
            return S('v') * power(v if eng.must(RealCond('>=', v - tol)) else tol, -1)

        def out():
            r = bar() * power(corr(), -2)
            return npshim.log10(r).fn((), {}) if lg else r
        return [Post('scaling', 's', (k,), lambda: rel(k) * corr()), Post('theta is isotropic', 'th', (k,), out),
                Post('the Gaussian process is the same', 'same', (k,), lambda: S('s', k) ** 2 * theta(k)),
                Post('distance of theta to an isotropic one', 'q', (), lambda: total(lambda a: logs(a) ** 2) - total(logs) ** 2 * power(T(DIM), -1)),
                Post('the required minimum distance', 'dist', (), lambda: S('v'), pre=(RealCond('>', d0() - tol),)),
                Post('required distance of these data', 'what', (), lambda: ONE)]
    return Ob(f'rescaling_data_w_theta_sol{" log" if lg else ""}{" vary" if vary else ""}', ['C14', 'C17'], ['GpWellCondVreq.rescaling_data_w_theta_sol'],
              inputs, run, posts, shapes=dict(th=(DIM,), s=(DIM,)), partial=True)


def required():
    """the minimum distance required by the rescaling method"""
    out = []
    for given in (True, False):
        for one in (True, False):
            def inputs(one=one):
                i = Inputs().int('n', ip(1) if one else N).int('dim', DIM)
                return i if one else i.assume(Cond('>=', N - 2))

            def run(w, d, given=given):
                o = make(w.get(GP), **({} if given else dict(dim=d['dim'])))
                return dict(v=o.calc_mtd_rescale_origin_vreq(d['n'], d['dim']) if given else o.calc_mtd_rescale_origin_vreq(d['n']))

            def spec(one=one):
                if one:
                    return ONE
                e, far = terms.exp(ONE), 2 * power(T(DIM), HALF)
                q = 4 + 2 * e * e * terms.log((T(N) - 1) * (1 + far) * T(HALF))
                return npshim.minimum((2 + power(q, HALF)) * power(e, -1), far).fn((), {})
            out.append(Ob(f'calc_mtd_rescale_origin_vreq{" one point" if one else ""}{" dim" if given else ""}', ['C14'], ['GpWellCondVreq.calc_mtd_rescale_origin_vreq'],
                          inputs, run, lambda d, o, spec=spec: [Post('required minimum distance', 'v', (), spec)], partial=True))
    return out


def obligations():
    return maps() + chosen() + proposed() + required()
