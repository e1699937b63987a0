"""Contracts of the kernels: everything follows from k(x, y) by differentiation."""
from fractions import Fraction

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr
from .ints import IP, ip, sym, Cond, sel
from .terms import Term, T, S, ZERO, ONE, pc, D, delta, exp, log, power, fresh, mk_sum, subst, tmap
from .prover import Ob, Post, Inputs

KERNELS = {'SqExp': ('sq_exp', 'KernelSqExp'), 'RatQu': ('rat_quad', 'KernelRatQuad'), 'Ma5f2': ('matern_5f2', 'KernelMatern5f2')}
MOD = 'gpgradpy.src.kernel.'

terms.POS |= {'τ', 'α'}
ints.RANGE['~g0'] = ints.RANGE['~g1'] = ints.RANGE['~g2'] = ints.RANGE['~g3'] = sym('gdim')
_cache = {}


def generic(kind):
    """k as a function of the differences of the coordinates"""
    if kind not in _cache:
        b = fresh(sym('gdim'))
        s = mk_sum(S('τ', sym(b)) * S('ρ', sym(b)) ** 2, b)
        if kind == 'SqExp':
            k = exp(-s)
        elif kind == 'RatQu':
            k = power(1 + s / S('α'), -S('α'))
        else:
            nu, s5 = power(s, Fraction(1, 2)), power(T(5), Fraction(1, 2))
            k = (1 + s5 * nu + Fraction(5, 3) * nu ** 2) * exp(-s5 * nu)
        _cache[kind] = k
    return _cache[kind]


def derivative(kind, what):
    """what: tuple of 'x', 'y', 'th', 'al' -> derivative with the generic indices ~g0, ~g1, ..."""
    key = (kind, what)
    if key in _cache:
        return _cache[key]
    t = generic(kind) if not what else derivative(kind, what[:-1])
    if what:
        g = sym(f'~g{len(what) - 1}')
        w = what[-1]

        def da(a):
            if w == 'x' and a.name == 'ρ':
                return delta(a.args[0] - g)
            if w == 'y' and a.name == 'ρ':
                return -delta(a.args[0] - g)
            if w == 'th' and a.name == 'τ':
                return delta(a.args[0] - g)
            if w == 'al' and a.name == 'α':
                return ONE
            return None
        t = D(t, da)
    _cache[key] = t
    return t


def k_entry(kind, what, idx, R, th, al, dim, a, b, env):
    """derivative of k between points a and b; R, th, al: functions of indices"""
    t = derivative(kind, what)
    e = {f'~g{k}': i for k, i in enumerate(idx) if i is not None}
    e['gdim'] = dim
    t = subst(t, e)

    def f(at):
        if at.name == 'ρ':
            return R((at.args[0], a, b), env)
        if at.name == 'τ':
            return th((at.args[0],), env)
        if at.name == 'α':
            return al((), env)
        return None
    return tmap(t, f)


def _fns(R, th, al):
    R, th = as_arr(R), as_arr(th)
    return eng._real(R), eng._real(th), (eng._real(as_arr(al)) if al is not None else None), R.shape_


def _m(mask, p):
    return p if mask is None else sel(mask.mask, p)


def _cnt(mask, n):
    return n if mask is None else ints.SIZES[mask.mask][0]


def _blocks(t, n, g, env=None):
    """position in a data vector: (None, point) or (coordinate, selected point)"""
    if eng.must(Cond('>=', n - 1 - t)):
        return None, t
    qr = pc().radix(t - n, g)
    if qr is None:
        raise eng.NeedRadix(t - n, g)
    return qr


def spec_base(kind, R, th, al, what=(), idx=()):
    """array with entries from k or a derivative: the contract of the gradient-free functions"""
    fR, ft, fa, sh = _fns(R, th, al)
    return Arr(sh[1:], lambda i, e: k_entry(kind, what, idx, fR, ft, fa, sh[0].subst(e), i[0], i[1], e))


def stub_KernBase(kind):
    def f(Rtensor, theta, hp_kernel, *args):
        return spec_base(kind, Rtensor, theta, hp_kernel)
    return staticmethod(f)


def stub_hess_x(kind):
    def f(Rtensor, theta, hp_kernel, *args):
        fR, ft, fa, sh = _fns(Rtensor, theta, hp_kernel)

        def g(i, e):
            n1 = sh[1].subst(e)
            q, r = npshim._split(i[1], n1)
            return k_entry(kind, ('x', 'x'), (q, i[0]), fR, ft, fa, sh[0].subst(e), r, i[2], e)
        return Arr((sh[0], sh[0] * sh[1], sh[2]), g)
    return staticmethod(f)


def kern_entry(kind, fR, ft, fa, sh, m1, m2, i, e, extra=(), eidx=()):
    """entry i of the gradient-enhanced matrix, or of its derivative with respect to a hyperparameter"""
    n1, n2 = sh[1].subst(e), sh[2].subst(e)
    qi, a = _blocks(i[0], n1, _cnt(m1, n1))
    qj, b = _blocks(i[1], n2, _cnt(m2, n2))
    what, idx = (), ()
    if qi is not None:
        what, idx, a = what + ('x',), idx + (qi,), _m(m1, a)
    if qj is not None:
        what, idx, b = what + ('y',), idx + (qj,), _m(m2, b)
    return k_entry(kind, what + extra, idx + eidx, fR, ft, fa, sh[0].subst(e), a, b, e)


def spec_KernGrad(kind, R, th, al, m1=None, m2=None):
    fR, ft, fa, sh = _fns(R, th, al)
    dim, n1, n2 = sh
    return Arr((n1 + dim * _cnt(m1, n1), n2 + dim * _cnt(m2, n2)),
               lambda i, e: kern_entry(kind, fR, ft, fa, sh, m1, m2, i, e))


def stub_KernGrad(kind):
    def f(Rtensor, theta, hp_kernel, bvec_use_grad1=None, bvec_use_grad2=None):
        return spec_KernGrad(kind, Rtensor, theta, hp_kernel, bvec_use_grad1, bvec_use_grad2)
    return staticmethod(f)


def _order(m):
    """order of a monomial in the coordinate differences near coinciding points, and the rest of it; None if unknown"""
    o, rest = 0, []
    for a, e in m:
        if 'R[' not in a.key:
            if isinstance(e, Term) and 'R[' in e.key:
                return None
            rest.append((a, e))
        elif isinstance(e, Term):
            return None
        elif a.kind == 's':
            o += e
        elif a.kind == 'sum':
            if sum(x for y, x in a.args[1] if y.kind == 's' and y.name == 'R') != 2:
                return None
            o += 2 * Fraction(e)
        elif a.kind == 'pow':
            os = [_order(mm) for mm in a.args[0].d]
            if None in os or any(x[0] <= 0 for x in os):
                return None
            o += min(x[0] for x in os) * Fraction(e)
        elif a.kind == 'exp':
            x = _order(a.args[0])
            if x is None or x[0] <= 0:
                return None
        else:
            return None
    return o, tuple(rest)


def coinciding():
    """is it known that the coordinate differences are smaller than 1e-12?"""
    for k, sg in pc().real.items():
        t = eng.RTERM.get(k)
        if t is None or 'R[' not in k:
            continue
        for t, sg in ((t, sg), (-t, {-x for x in sg})):
            if 1 in sg:
                continue
            c0 = t.d.get((), 0)
            if c0 < -Fraction(1, 10 ** 12) or c0 > 0:
                continue
            os = [_order(m) for m in t.d if m]
            if all(o is not None and o[0] > 0 for o in os) and all(c > 0 for m, c in t.d.items() if m):
                return True
    return False


def at_zero(t):
    """difference of two forms where all coordinate differences vanish (the Matern kernel at coinciding points: nu is
    below 1e-16 in the code, which for points in doubles means that it is zero): is it zero in the limit?"""
    if not coinciding():
        return False
    keep = {}
    for m, c in t.d.items():
        r = _order(m)
        if r is None or r[0] < 0:
            return False
        if r[0] == 0:
            if any(a.kind == 's' and a.name == 'R' for a, e in m):
                return False
            keep[r[1]] = keep.get(r[1], 0) + c
    return not any(keep.values())


# ---------------------------------------------------------------- obligations
DIM, N1, N2, N = sym('dim'), sym('n1'), sym('n2'), sym('n')


def _two_sets(kind, masks=(), same=False):
    def f():
        i = Inputs()
        if same:
            i.real('R', DIM, N, N, anti=True)
        else:
            i.real('R', DIM, N1, N2)
        i.real('th', DIM, pos=True)
        if kind == 'RatQu':
            i.real('al', pos=True)
        else:
            i.const('al', None)
        if 1 in masks:
            i.mask('m1', N if same else N1, 'g1')
        if 2 in masks:
            i.mask('m2', N2, 'g2')
        return i
    return f


def _setup_anti(same):
    """the coordinate differences of one set of points are antisymmetric"""
    (terms.ANTI.add if same else terms.ANTI.discard)('R')


def idx2(dim, n1, n2):
    return [fresh(x, f'~{c}') for c, x in zip('ijkd', (dim,) * 4)], [fresh(n1, '~a'), fresh(n2, '~b')]


def _cls(w, kind, cls=None):
    return w.get(f'{MOD}{KERNELS[kind][1]}:{cls or KERNELS[kind][1]}')


def obligations():
    out = []
    for kind, (pre, clsname) in KERNELS.items():
        out += _kernel(kind, pre, clsname)
    return out


def _argfn(d):
    R, th = as_arr(d['R']), as_arr(d['th'])
    return eng._real(R), eng._real(th), (eng._real(as_arr(d['al'])) if d['al'] is not None else None), R.shape_


def _kernel(kind, pre, clsname):
    out = []
    az = at_zero if kind == 'Ma5f2' else None
    M = MOD + clsname

    def make(name, pids, cls, meth, masks, same, posts, stubs=None, shapes=None, args=('R', 'th', 'al'), raises=None, limit=90):
        inner = _two_sets(kind, masks, same)

        def inputs():
            _setup_anti(same)
            return inner()

        def run(w, d):
            f = getattr(w.get(f'{M}:{cls}'), f'{pre}_{meth}')
            r = f(*[d[a] if a is not None else None for a in args])
            return {'out': r}
        out.append(Ob(f'{kind}:{cls}.{meth}{name}', pids, [f'{cls}.{pre}_{meth}'], inputs, run, posts, stubs, shapes=shapes,
                      atzero=az, raises=raises, limit=limit))

    def fr(L, c):
        return sym(fresh(L, '~' + c))

    # --- gradient-free matrix
    def p_base(d, o):
        fR, ft, fa, sh = _argfn(d)
        a, b = fr(N1, 'a'), fr(N2, 'b')
        return [Post('k(x_a, y_b)', 'out', (a, b), lambda: k_entry(kind, (), (), fR, ft, fa, DIM, a, b, {}))]
    base = f'{clsname}Base'
    make('', ['C01'], base, 'calc_KernBase', (), False, p_base, shapes={'out': (N1, N2)})

    # --- second derivatives with respect to x
    def p_hess(d, o):
        fR, ft, fa, sh = _argfn(d)
        a, b, i, k = fr(N1, 'a'), fr(N2, 'b'), fr(DIM, 'i'), fr(DIM, 'k')
        return [Post('d2k/dx_i dx_k', 'out', (k, i * N1 + a, b),
                     lambda: k_entry(kind, ('x', 'x'), (i, k), fR, ft, fa, DIM, a, b, {}))]

    def st_base(w):
        c = w.get(f'{M}:{clsname}')
        b = w.get(f'{M}:{base}')
        w.patch(b, f'{pre}_calc_KernBase', stub_KernBase(kind))
    make('', ['C03'], base, 'calc_KernBase_hess_x', (), False, p_hess, stubs=st_base, shapes={'out': (DIM, DIM * N1, N2)})

    # --- hyperparameters, gradient-free
    def p_bth(d, o):
        fR, ft, fa, sh = _argfn(d)
        a, b, k = fr(N, 'a'), fr(N, 'b'), fr(DIM, 'd')
        return [Post('dk/dtheta_d', 'out', (k, a, b), lambda: k_entry(kind, ('th',), (k,), fR, ft, fa, DIM, a, b, {}))]
    make('', ['C02'], base, 'calc_KernBase_grad_th', (), True, p_bth, shapes={'out': (DIM, N, N)})

    def refuse(exc, q):
        return type(exc) is Exception
    if kind == 'RatQu':
        def p_bal(d, o):
            fR, ft, fa, sh = _argfn(d)
            a, b = fr(N, 'a'), fr(N, 'b')
            return [Post('dk/dalpha', 'out', (ip(0), a, b), lambda: k_entry(kind, ('al',), (), fR, ft, fa, DIM, a, b, {}))]
        make('', ['C02'], base, 'calc_KernBase_grad_alpha', (), True, p_bal, shapes={'out': (1, N, N)})
    else:
        make('', ['C02'], base, 'calc_KernBase_grad_alpha', (), True, None, raises=refuse)
        make('', ['C02'], f'{clsname}GradMod', 'calc_KernGrad_grad_alpha', (), True, None, raises=refuse)

    # --- gradient-enhanced
    for cls, masklist in ((f'{clsname}GradMod', ((), (1,), (2,), (1, 2))), (f'{clsname}Grad', ((),))):
        mod = cls.endswith('Mod')
        for masks in masklist:
            c1, c2 = (sym('g1') if 1 in masks else N1), (sym('g2') if 2 in masks else N2)

            def p_grad(d, o, masks=masks, c1=c1, c2=c2):
                fR, ft, fa, sh = _argfn(d)
                m1 = d['m1'].mask if 1 in masks else None
                m2 = d['m2'].mask if 2 in masks else None
                a, b, i, j = fr(N1, 'a'), fr(N2, 'b'), fr(DIM, 'i'), fr(DIM, 'j')
                p, q = fr(c1, 'p'), fr(c2, 'q')
                sp = p if m1 is None else sel(m1, p)
                sq = q if m2 is None else sel(m2, q)

                def K(what, idx, x, y):
                    return lambda: k_entry(kind, what, idx, fR, ft, fa, DIM, x, y, {})
                return [Post('k', 'out', (a, b), K((), (), a, b)),
                        Post('dk/dx_i', 'out', (N1 + i * c1 + p, b), K(('x',), (i,), sp, b)),
                        Post('dk/dy_j', 'out', (a, N2 + j * c2 + q), K(('y',), (j,), a, sq)),
                        Post('d2k/dx_i dy_j', 'out', (N1 + i * c1 + p, N2 + j * c2 + q), K(('x', 'y'), (i, j), sp, sq))]
            args = ('R', 'th', 'al') + (('m1' if 1 in masks else None, 'm2' if 2 in masks else None) if mod else ())
            make(f' masks {masks}' if mod else '', ['C01'], cls, 'calc_KernGrad', masks, False, p_grad, args=args,
                 shapes={'out': (N1 + DIM * c1, N2 + DIM * c2)})

        # rows at query points
        for masks in (((), (2,)) if mod else ((),)):
            c2 = sym('g2') if 2 in masks else N2

            def p_gx(d, o, masks=masks, c2=c2):
                fR, ft, fa, sh = _argfn(d)
                m2 = d['m2'].mask if 2 in masks else None
                a, b, i, j, k = fr(N1, 'a'), fr(N2, 'b'), fr(DIM, 'i'), fr(DIM, 'j'), fr(DIM, 'k')
                q = fr(c2, 'q')
                sq = q if m2 is None else sel(m2, q)

                def K(what, idx, x, y):
                    return lambda: k_entry(kind, what, idx, fR, ft, fa, DIM, x, y, {})
                return [Post('d2k/dx_i dx_k', 'out', (k, i * N1 + a, b), K(('x', 'x'), (i, k), a, b)),
                        Post('d3k/dx_i dx_k dy_j', 'out', (k, i * N1 + a, N2 + j * c2 + q), K(('x', 'x', 'y'), (i, k, j), a, sq))]

            def st_gx(w):
                b = w.get(f'{M}:{base}')
                w.patch(b, f'{pre}_calc_KernBase', stub_KernBase(kind))
                w.patch(b, f'{pre}_calc_KernBase_hess_x', stub_hess_x(kind))
                if hasattr(b, f'{pre}_calc_KernBase_hess_x_jit'):
                    w.patch(b, f'{pre}_calc_KernBase_hess_x_jit', stub_hess_x(kind))
            args = ('R', 'th', 'al') + (('m2' if 2 in masks else None,) if mod else ())
            make(f' mask {masks}' if mod else '', ['C03'], cls, 'calc_KernGrad_grad_x', masks, False, p_gx, args=args, stubs=st_gx,
                 shapes={'out': (DIM, DIM * N1, N2 + DIM * c2)}, limit=150)

        # hyperparameters
        for masks in (((), (1,)) if mod else ((),)):
            c = sym('g1') if 1 in masks else N

            def p_gth(d, o, masks=masks, c=c, al=False):
                fR, ft, fa, sh = _argfn(d)
                m1 = d['m1'].mask if 1 in masks else None
                a, b, i, j, k = fr(N, 'a'), fr(N, 'b'), fr(DIM, 'i'), fr(DIM, 'j'), fr(DIM, 'd')
                p, q = fr(c, 'p'), fr(c, 'q')
                sp = p if m1 is None else sel(m1, p)
                sq = q if m1 is None else sel(m1, q)
                h = ('al',) if al else ('th',)
                hi = (None,) if al else (k,)
                f = ip(0) if al else k

                def K(what, idx, x, y):
                    return lambda: k_entry(kind, what, idx, fR, ft, fa, DIM, x, y, {})
                return [Post('dk', 'out', (f, a, b), K(h, hi, a, b)),
                        Post('d dk/dx_i', 'out', (f, N + i * c + p, b), K(('x',) + h, (i,) + hi, sp, b)),
                        Post('d dk/dy_j', 'out', (f, a, N + j * c + q), K(('y',) + h, (j,) + hi, a, sq)),
                        Post('d d2k/dx_i dy_j', 'out', (f, N + i * c + p, N + j * c + q), K(('x', 'y') + h, (i, j) + hi, sp, sq))]

            def st_gth(w, cls=cls):
                w.patch(w.get(f'{M}:{cls}'), f'{pre}_calc_KernGrad', stub_KernGrad(kind))
            args = ('R', 'th', 'al') + (('m1' if 1 in masks else None,) if mod else ())
            n = N + DIM * c
            make(f' mask {masks}' if mod else '', ['C02'], cls, 'calc_KernGrad_grad_th', masks, True, p_gth, args=args, stubs=st_gth,
                 shapes={'out': (DIM, n, n)}, limit=150)
            if kind == 'RatQu':
                make(f' mask {masks}' if mod else '', ['C02'], cls, 'calc_KernGrad_grad_alpha', masks, True,
                     lambda d, o, g=p_gth: g(d, o, al=True), args=args, shapes={'out': (1, n, n)}, limit=150)
    return out
