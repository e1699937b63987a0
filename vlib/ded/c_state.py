"""Contracts of the state of the surrogate: which data is accepted, how its noise is classified, and that nothing that
was set before remains."""
from fractions import Fraction

from . import eng, ints, terms, npshim, prover
from .eng import Arr, as_arr, RealCond, SInt
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, power, fresh
from .prover import Ob, Post, Inputs, make, Broken
from .c_layout import fr
from .c_cov import callee, stub, same, flag, Callee

NF, NX, DIM, DX, NG, NM, NSF, GR, GC, SR, SC = [sym(s) for s in ('nf', 'nx', 'dim', 'dx', 'ng', 'nm', 'nsf', 'gr', 'gc', 'sr', 'sc')]
GP = 'gpgradpy.src.GaussianProcess:GaussianProcess'
GPM = 'gpgradpy.src.GaussianProcess'
RS = 'gpgradpy.src.base.Rescaling:Rescaling'
TINY = T(Fraction(1, 10 ** 10))
CTRL = (ints.OutOfReach, ints.NeedSplit, eng.NeedRadix, eng._Dead, eng.Timeout_, RecursionError, MemoryError)


def refused(f):
    try:
        f()
    except CTRL:
        raise
    except Exception:
        return True
    return False


class swapped:
    """a global of a module, replaced while the function runs"""

    def __init__(self, mod, **new):
        self.mod, self.new = mod, new

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.new}
        for k, v in self.new.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


# ---------------------------------------------------------------- C19
def data():
    out = []
    std = (None, 'given', 'missing')
    k = 0
    good = []
    for use in (True, False):
        for grad in ((True, 1, False) if use else (False, True)):
            for mask in (False, True):
                for sf in std:
                    for sg in std if grad is True and use else (None,):
                        a = use, grad, mask, sf, sg, ('base', 'precon')[k % 2] if use else 'base', k
                        out.append(_data(*a))
                        if grad == use and (use or not mask) and isinstance(grad, bool):
                            good.append(a)
                        k += 1
    out.append(_data(True, True, True, 'given', 'given', 'precon', k, xdim=1))
    out.append(_data(False, False, False, 'given', None, 'base', k, xdim=1))
    out.append(_data(True, True, False, 'given', 'flat', 'precon', k))
    for mtd in ('rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax'):
        for mask in (False, True):
            for sf in std:
                for sg in std:
                    out.append(_data(True, True, mask, sf, sg, mtd, k))
                    good.append((True, True, mask, sf, sg, mtd, k))
                    k += 1
    return out + [_data(*a, eq=True) for a in good]


def missing(name, shape, at):
    """array with one missing entry"""
    def f(i, e):
        if all(eng.must(Cond('==', x - y)) for x, y in zip(i, at)):
            return npshim.NAN
        return S(name, *i)
    return f


def _data(use, grad, mask, sf, sg, mtd, k, xdim=2, eq=False):
    """set_data accepts exactly consistent data, and classifies its noise"""
    def inputs():
        i = Inputs().real('f', NF).int('dim', DIM).real('e0', pos=True).real('e1', pos=True).real('v', pos=True).real('q', pos=True).int('old', sym('old'))
        i.real('ox', sym('ou'), DIM).real('of', sym('ou')).real('t', pos=True)
        i.real('x', *((NX, DX) if xdim == 2 else (NX,)))
        i.mask('om', sym('ou'), 'oc')
        terms.POS.update(('sf', 'sg'))
        terms.MIX.update(('sf', 'sg'))
        if mask:
            i.mask('m', NM, 'ng')
        if grad:
            i.real('g', *((GR, GC) if grad is True else (GR,)))
        if sf == 'given':
            i.real('sf', NSF, pos=True)
        elif sf:
            i.int('p', sym('p')).assume(Cond('>=', sym('p')), Cond('>=', NSF - 1 - sym('p')))
            i.vary('sf', missing('sf', (NSF,), (sym('p'),)), (NSF,))
        if sg == 'given':
            i.real('sg', SR, SC, pos=True)
        elif sg == 'flat':
            i.real('sg', SR, pos=True)
        elif sg:
            a, b = sym('ra'), sym('cb')
            i.int('ra', a).int('cb', b).assume(Cond('>=', a), Cond('>=', b), Cond('>=', SR - 1 - a), Cond('>=', SC - 1 - b))
            i.vary('sg', missing('sg', (SR, SC), (a, b)), (SR, SC))
        return i.assume(*consistent()) if eq else i

    def run(w, d):
        C, mod = w.get(GP), w.get(GPM)
        scl = mtd.startswith(('rescale', 'dflt'))
        dist = {'rescale_origin': d['q'], 'rescale_eta_vary': d['q'] + 1, 'dflt_vmin': d['q'] + 2, 'dflt_vmax': d['q'] + 3}
        n = d['f'].size
        old = k % 2 == 0

        class Scl:
            """records what the scaling is built from"""

            def __init__(self, *a, **kw):
                import inspect
                names = list(inspect.signature(w.get(RS).__init__).parameters)[1:]
                self.a = dict(zip(names, a), **kw)
                self.a['points'] = self.a.pop(names[0], None)
                self.obj = None

            def set_obj_data(self, *a, **kw):
                import inspect
                names = list(inspect.signature(w.get(RS).set_obj_data).parameters)[1:]
                self.obj = dict(zip(names, a), **kw)
        o = make(C, use_grad=use, dim=d['dim'], wellcond_mtd=mtd, b_use_data_scl=scl,
                 calc_nugget=stub(dict(n_eval=n), lambda bad: (d['e0'] + bad, d['e1'] + bad)),
                 calc_dist_min=stub(dict(Xmat=d['x']), lambda bad: d['v'] + bad),
                 calc_mtd_rescale_origin_vreq=stub(dict(n_eval=n, dim=d['dim']), lambda bad: dist['rescale_origin'] + bad),
                 vmin_rescale_eta_vary=dist['rescale_eta_vary'], cond_dist_min_dflt=dist['dflt_vmin'], cond_dist_max_dflt=dist['dflt_vmax'],
                 kernel_has_hp=False, optz_log_hp_theta=True, optz_log_hp_var=True, optz_log_hp_kernel=True, b_optz_hp_kernel=True,
                 # whatever was set before
                 n_eval=d['old'], n_grad=d['old'], n_data=d['old'], known_eps_fval=old, known_eps_fgrad=not old, has_grad_info=old,
                 b_optz_var_fval=old, b_optz_var_fgrad=not old, b_fval_zero=not old, b_fgrad_zero=old, b_has_noisy_data=old, hp_info_optz_lkd=None,
                 _x_eval_in=d['ox'], _fval_in=d['of'], _std_fval_in=d['of'], _grad_in=d['ox'], _std_grad_in=d['ox'], bvec_use_grad=d['om'],
                 DataScl=None, Rtensor_init=None, _eta_Kbase=d['t'], _eta_Kgrad=d['t'], _etaK=d['t'], _vmin_init=d['t'], _vmin_req_grad=d['t'])
        std_f = d.get('sf')
        with swapped(mod, Rescaling=Scl):
            no = refused(lambda: o.set_data(d['x'], d['f'], std_f, *((d.get('g'), d.get('sg'), d.get('m')))))
        r = dict(no=flag(no))
        if no:
            return r
        i = o.hp_info_optz_lkd
        r.update(n_eval=o.n_eval, n_grad=o.n_grad, n_data=o.n_data, kf=flag(o.known_eps_fval), kg=flag(o.known_eps_fgrad), zf=flag(o.b_fval_zero),
                 zg=flag(o.b_fgrad_zero), noisy=flag(o.b_has_noisy_data), of=flag(o.b_optz_var_fval), og=flag(o.b_optz_var_fgrad),
                 vK=flag(i.has_varK), vf=flag(i.has_var_fval), vg=flag(i.has_var_fgrad), th=flag(i.has_theta), n_hp=i.n_hp, etaK=o._etaK,
                 x=o._x_eval_in, f=o._fval_in, vmin=o._vmin_init)
        if (o._std_fval_in is None) == bool(o.known_eps_fval) or (o._grad_in is None) != (not grad) or (o._std_grad_in is None) == bool(o.known_eps_fgrad):
            raise AssertionError('the data in use')
        if o._std_fval_in is not None:
            r['sf'] = o._std_fval_in
        if o._std_grad_in is not None:
            r['sg'] = o._std_grad_in
        if grad:
            r['g'] = o._grad_in
        b = o.bvec_use_grad
        r['mask'] = flag((b is None) == (not mask) and (not mask or same(b, d['m'])))
        r['scl'] = flag(isinstance(o.DataScl, Scl) == scl)
        if scl:
            a = o.DataScl.a
            r['method'] = flag(a.get('x_scl_method') == ('set_vmax' if mtd == 'dflt_vmax' else 'set_vmin'))
            r['dist'] = a.get('dist_set')
            r['sx'] = a.get('points')
            r['rel'] = flag(all(a.get(q) is None for q in ('xvec_scale_in', 'x_shift_in')))
            q = o.DataScl.obj or {}
            r['sobj'] = flag(all(same(q.get(nm), v) for nm, v in zip(names_of(w), (d['f'], d.get('sf'), d.get('g'), d.get('sg')))))
        else:
            r['R'] = o.Rtensor_init
        return r

    def names_of(w):
        import inspect
        return list(inspect.signature(w.get(RS).set_obj_data).parameters)[1:5]

    ngr = (sym('ng') if mask else NF) if use else ip(0)

    def sizes():
        """the data is consistent"""
        m = lambda c: eng.must(Cond('==', c))
        if xdim != 2 or use != bool(grad) or (mask and not use):
            return False
        if not (m(NX - NF) and m(DX - DIM)):
            return False
        if mask and not m(NM - NF):
            return False
        if use and (grad is not True or not (m(GR - ngr) and m(GC - DIM))):
            return False
        if sf == 'given' and not m(NSF - NF):
            return False
        if sg == 'given' and not (m(SR - ngr) and m(SC - DIM)):
            return False
        return sg != 'flat'

    def zero(nm):
        return eng.must(RealCond('>', TINY - npshim._extreme('max', Arr((NSF,), lambda i, e: S('sf', *i)) if nm == 'sf' else
                                                          Arr((SR, SC), lambda i, e: S('sg', *i))).fn((), {})))

    def posts(d, o):
        l = [Post('refused exactly if inconsistent', 'no', (), lambda: ZERO if sizes() else ONE)]
        if o is not None and 'n_eval' not in o:
            return l
        kf, kg = sf == 'given', sg == 'given' and use
        zf = lambda: kf and zero('sf')
        zg = lambda: not use or (kg and zero('sg'))
        noisy = lambda: not (zf() and zg())
        b = lambda f: (lambda: ONE if f() else ZERO)
        i, j, p = fr(NX, 'i'), fr(NX, 'j'), fr(DX, 'p')
        q = fr(GR, 'q')
        l += [Post('number of values', 'n_eval', (), lambda: T(NF)), Post('number of gradients', 'n_grad', (), lambda: T(ngr)),
              Post('number of data', 'n_data', (), lambda: T(NF + ngr * DIM)), Post('noise of the values is known', 'kf', (), b(lambda: kf)),
              Post('noise of the gradients is known', 'kg', (), b(lambda: kg)), Post('values without noise', 'zf', (), b(zf)),
              Post('gradients without noise', 'zg', (), b(zg)), Post('noisy data', 'noisy', (), b(noisy)),
              Post('variance of the values is a hyperparameter', 'of', (), b(lambda: not kf)),
              Post('variance of the gradients is a hyperparameter', 'og', (), b(lambda: use and not kg)),
              Post('layout: theta', 'th', (), lambda: ONE), Post('layout: varK', 'vK', (), b(noisy)), Post('layout: var_fval', 'vf', (), b(lambda: not kf)),
              Post('layout: var_fgrad', 'vg', (), b(lambda: use and not kg)),
              Post('size of the layout', 'n_hp', (), lambda: T(DIM) + T(flag(noisy())) + T(flag(not kf)) + T(flag(use and not kg))),
              Post('nugget', 'etaK', (), lambda: S('e1') if use else S('e0')), Post('points', 'x', (i, p), lambda: S('x', i, p)),
              Post('values', 'f', (i,), lambda: S('f', i)), Post('smallest distance', 'vmin', (), lambda: S('v')), Post('mask', 'mask', (), lambda: ONE),
              Post('scaling in use', 'scl', (), lambda: ONE)]
        if kf:
            l.append(Post('standard deviations of the values', 'sf', (i,), lambda: S('sf', i)))
        if grad:
            l.append(Post('gradients', 'g', (q, p), lambda: S('g', q, p)))
        if kg:
            l.append(Post('standard deviations of the gradients', 'sg', (q, p), lambda: S('sg', q, p)))
        if mtd.startswith(('rescale', 'dflt')):
            dist = {'rescale_origin': 0, 'rescale_eta_vary': 1, 'dflt_vmin': 2, 'dflt_vmax': 3}[mtd]
            l += [Post('distance that is set', 'method', (), lambda: ONE), Post('value of that distance', 'dist', (), lambda: S('q') + dist),
                  Post('points that are scaled', 'sx', (i, p), lambda: S('x', i, p)), Post('isotropic at first', 'rel', (), lambda: ONE),
                  Post('data that is scaled', 'sobj', (), lambda: ONE)]
        else:
            l.append(Post('differences of the points', 'R', (p, i, j), lambda: S('x', i, p) - S('x', j, p)))
        if o is None:
            l = [Post(x.label, x.out, x.idx, x.spec, tuple(x.pre) + tuple(consistent())) if x.out != 'no' else x for x in l]
        return l

    def consistent():
        c = [Cond('==', NX - NF), Cond('==', DX - DIM)]
        if mask:
            c.append(Cond('==', NM - NF))
        if use:
            c += [Cond('==', GR - ngr), Cond('==', GC - DIM)]
        if sf == 'given':
            c.append(Cond('==', NSF - NF))
        if sg == 'given':
            c += [Cond('==', SR - ngr), Cond('==', SC - DIM)]
        return c
    nm = f'set_data {mtd}{" gradients" if use else ""}{"" if bool(grad) == use else " none given" if use else " given"}{" flat" if grad == 1 and grad is not True else ""}' \
         f'{" mask" if mask else ""}{" std " + sf if sf else ""}{" std of the gradients " + sg if sg else ""}{"" if xdim == 2 else " one point"}{" consistent" if eq else ""}'
    return Ob(nm, ['C19', 'C22'], ['GaussianProcess.set_data', 'GpHparaOptz.setup_hp_idx4optz'], inputs, run, posts, partial=True)


# ---------------------------------------------------------------- C22: hyperparameters
HPV = 'gpgradpy.src.base.GpHpara:HparaOptzVal'
FIELDS = ('beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad')


def hpara():
    out = []
    for mtd in ('stored', 'optz', 'current', 'set'):
        for cond in (True, False):
            out.append(_hpara(mtd, cond))
    for case in ('current', 'set', 'best', None, 'stored'):
        out.append(_hpara_refused(case))
    for f in FIELDS:
        out.append(_stale(f, False))
        out.append(_stale(f, True))
    return out


def _hpin():
    return Inputs().real('be', 1).real('th', DIM, pos=True).real('k', pos=True).real('vK', pos=True).real('vf', pos=True).real('vg', pos=True) \
        .real('be2', 1, pos=True).real('th2', DIM, pos=True).real('k2', pos=True).real('vK2', pos=True).real('vf2', pos=True).real('vg2', pos=True).int('i', sym('i')) \
        .assume(Cond('>=', sym('i')))


def _hpv(w, d, s=''):
    return w.get(HPV)(*[d[k] + d[k + s] if s else d[k] for k in ('be', 'th', 'k', 'vK', 'vf', 'vg')])


def _hpara(mtd, cond):
    """the hyperparameters that are asked for are in use, and the model is set up with them"""
    def run(w, d):
        old, new = _hpv(w, d), _hpv(w, d, '2')
        seen = []

        def put(bad):
            o.hp_vals = new if not bad else old
        o = make(w.get(GP), hp_vals=old, set_hp_from_idx=stub(dict(i_optz=d['i']), put), optz_hp=stub(dict(i_optz=d['i']), put))
        o.setup_eval_model = stub(dict(calc_cond=cond), lambda bad: seen.append((o.hp_vals, bad))).bind(w.get(GP).setup_eval_model)
        j = d['i'] + 1 if mtd == 'current' else d['i']
        o.set_hpara(mtd, j, hp_vals=new if mtd == 'set' else None, calc_cond=cond)
        want = old if mtd == 'current' else new
        return dict(n=len(seen), hp=flag(same(o.hp_vals, want)), up=flag(bool(seen) and same(seen[-1][0], want) and not seen[-1][1]))

    def posts(d, o):
        return [Post('the hyperparameters in use', 'hp', (), lambda: ONE), Post('the model is set up with them', 'up', (), lambda: ONE)]
    return Ob(f'set_hpara {mtd}{" condition number" if cond else ""}', ['C22', 'C18'] if mtd == 'stored' else ['C22'], ['GaussianProcess.set_hpara'], _hpin, run, posts, partial=True)


def _hpara_refused(case):
    def run(w, d):
        o = make(w.get(GP), hp_vals=None if case == 'current' else _hpv(w, d))
        for nm in ('set_hp_from_idx', 'optz_hp', 'setup_eval_model'):
            setattr(o, nm, lambda *a, **k: None)
        return dict(no=flag(refused(lambda: o.set_hpara(case, d['i'] * 0 - 1 if case == 'stored' else d['i'] + 1))))
    return Ob(f'set_hpara refused {case}', ['C22'], ['GaussianProcess.set_hpara'], _hpin, run, lambda d, o: [Post('refused', 'no', (), lambda: ONE)], partial=True)


def _stale(field, var):
    """evaluating is refused if the hyperparameters differ from those of the set-up"""
    def inputs():
        return _hpin().cho('A', NF, False).real('al', NF).real('x', sym('q'), DIM).real('xe', NF, DIM).int('n', NF).int('dim', DIM)

    def run(w, d):
        old, new = _hpv(w, d), _hpv(w, d, '2')
        import copy
        h = copy.copy(old)
        setattr(h, field, getattr(new, field))
        o = make(w.get(GP), hp_vals=h, _hp_vals_model_setup=old, KernEta_chofac=d['A'], invKernEta_fdiff=d['al'], use_grad=False, bvec_use_grad=None, n_eval=d['n'],
                 n_grad=0, dim=d['dim'], b_use_data_scl=False, get_scl_x_w_dist=lambda *a, **k: (d['xe'], None),
                 calc_KernBase=lambda *a, **k: w.np.zeros((d['n'], d['x'].shape[0])))
        o.set_mean_fun_op('poly_ord_0')
        return dict(no=flag(refused(lambda: (o.eval_model_var if var else o.eval_model)(d['x']))))
    return Ob(f'{"eval_model_var" if var else "eval_model"} with a different {field}', ['C22'], ['GpEvalModel.eval_model_var' if var else 'GpEvalModel.eval_model'],
              inputs, run, lambda d, o: [Post('refused', 'no', (), lambda: ONE)], partial=True)


# ---------------------------------------------------------------- data in use
def wrappers():
    out = []
    for scl in (True, False):
        for kf, kg in ((True, True), (False, True), (True, False), (False, False)):
            for grads in (True, False):
                if kg and not grads:
                    continue
                out.append(_used(scl, kf, kg, grads))
        for grad in (True, False):
            out.append(_meaninit(scl, grad))
    return out


def _used(scl, kf, kg, grads):
    """the data in use is the data of the last set_data, scaled as the scaling in use says"""
    def inputs():
        i = Inputs().real('x', NF, DIM).real('f', NF).real('R', DIM, NF, NF).real('z', NF, DIM).real('y', sym('q'), DIM)
        i.real('sf', NF).real('ff', NF).real('fs', NF).real('h', NF, DIM, DIM).real('hs', NF, DIM, DIM)
        return i.real('g', NG, DIM).real('gf', NG, DIM).real('sg', NG, DIM).real('gs', NG, DIM)

    def run(w, d):
        g, sf, sg = d['g'] if grads else None, d['sf'] if kf else None, d['sg'] if kg else None
        none = lambda a, b: None if a is None else a * b
        want = (d['f'], sf, g, sg)

        class Scl:
            @staticmethod
            def get_scl_x_w_dist():
                return d['z'], d['R']

            @staticmethod
            def x_init_2_scl(x):
                return x * 2

            @staticmethod
            def x_scl_2_init(x):
                return x * 3

            @staticmethod
            def obj_init_2_scl(*a, **k):
                return tuple(none(x, n + 2) for n, x in enumerate(a + (None,) * (6 - len(a)))) if not k else bad()

            @staticmethod
            def obj_scl_2_init(*a, **k):
                return tuple(none(x, n + 5) for n, x in enumerate(a + (None,) * (6 - len(a)))) if not k else bad()

            @staticmethod
            def get_scl_obj_data():
                return tuple(none(x, n + 2) for n, x in enumerate(want))

        def bad():
            raise ints.OutOfReach('arguments by name')
        o = make(w.get(GP), b_use_data_scl=scl, known_eps_fval=kf, known_eps_fgrad=kg, _x_eval_in=d['x'], _fval_in=d['f'], _std_fval_in=sf, _grad_in=g,
                 _std_grad_in=sg, Rtensor_init=d['R'] + 1, DataScl=Scl())
        z, R = o.get_scl_x_w_dist()
        r = dict(z=z, R=R, zy=o.x_init_2_scl(d['y']), xy=o.x_scl_2_init(d['y']))
        for nm, v in (('s', o.get_scl_eval_data()), ('i', o.get_init_eval_data())):
            for k, x, u in zip('abcd', v, want):
                if (x is None) != (u is None):
                    raise Broken('data that is (not) known')
                if x is not None:
                    r[nm + k] = x
        full = (d['f'], d['sf'], d['g'], d['sg'], d['h'], d['hs'])
        for nm, v in (('u', o.data_init_2_scl(*full)), ('v', o.data_scl_2_init(*full))):
            r.update({nm + k: x for k, x in zip('abcdef', v)})
        return r

    def posts(d, o):
        i, j, p, q, y, e = fr(NF, 'i'), fr(NF, 'j'), fr(DIM, 'p'), fr(NG, 'q'), fr(sym('q'), 'y'), fr(DIM, 'e')
        m = lambda n: n if scl else 1
        l = [Post('points in use', 'z', (i, p), lambda: S('z' if scl else 'x', i, p)), Post('differences in use', 'R', (p, i, j), lambda: S('R', p, i, j) + (0 if scl else 1)),
             Post('scaled points', 'zy', (y, p), lambda: S('y', y, p) * m(2)), Post('unscaled points', 'xy', (y, p), lambda: S('y', y, p) * m(3))]
        sh = dict(a=('f', (i,)), b=('sf', (i,)), c=('g', (q, p)), d=('sg', (q, p)), e=('h', (i, p, e)), f=('hs', (i, p, e)))
        for n, k in enumerate('abcd'):
            nm, I = sh[k]
            if (kf, kf, grads, kg)[n] or n == 0:
                l += [Post(f'data in use: {nm}', 's' + k, I, lambda nm=nm, I=I, n=n: S(nm, *I) * m(n + 2)), Post(f'data: {nm}', 'i' + k, I, lambda nm=nm, I=I: S(nm, *I))]
        for n, k in enumerate('abcdef'):
            nm, I = sh[k]
            l += [Post(f'scaled {nm}', 'u' + k, I, lambda nm=nm, I=I, n=n: S(nm, *I) * m(n + 2)), Post(f'unscaled {nm}', 'v' + k, I, lambda nm=nm, I=I, n=n: S(nm, *I) * m(n + 5))]
        return l
    return Ob(f'data in use{" rescaled" if scl else ""}{" std" if kf else ""}{" std of the gradients" if kg else ""}{"" if grads else " without gradients"}',
              ['C22', 'C13', 'C11', 'C20'], ['GaussianProcess.get_scl_eval_data', 'GaussianProcess.get_init_eval_data', 'GaussianProcess.data_init_2_scl',
                                             'GaussianProcess.data_scl_2_init', 'GaussianProcess.get_scl_x_w_dist', 'GaussianProcess.x_init_2_scl',
                                             'GaussianProcess.x_scl_2_init'], inputs, run, posts, partial=True)


def _meaninit(scl, grad):
    """the mean for other data, given in the original space"""
    def inputs():
        return Inputs().real('x', sym('q'), DIM).real('xe', NF, DIM).real('f', NF).real('g', NF, DIM).real('A', sym('N'), sym('N')).real('be', 1).real('th', DIM, pos=True) \
            .real('mu', sym('q')).real('dm', sym('q'), DIM)

    def run(w, d):
        g = d['g'] if grad else None
        o = make(w.get(GP), b_use_data_scl=scl)
        k = 2 if scl else 1

        class Scl:
            x_init_2_scl = staticmethod(lambda x: x * 2)
            obj_init_2_scl = staticmethod(lambda *a: tuple(None if x is None else x * (n + 2) for n, x in enumerate(a + (None,) * (6 - len(a)))))
        o.DataScl = Scl()
        cf = (d['A'], False)
        o.calc_model_mean_w_data_scl = stub(dict(x2model_scl=d['x'] * k, KernEta_chofac=cf, hp_beta=d['be'], xeval_scl=d['xe'] * k, fval_scl=d['f'] * (2 if scl else 1),
                                                 grad_scl=None if g is None else g * (4 if scl else 1), theta=d['th'], calc_grad=grad),
                                            lambda bad: (d['mu'] + bad, d['dm'] + bad)).bind(w.get(GP).calc_model_mean_w_data_scl)
        mu, dm = o.calc_model_mean_w_data_init(d['x'], cf, d['be'], d['xe'], d['f'], g, d['th'], calc_grad=grad)
        return dict(mu=mu, dm=dm)

    def posts(d, o):
        j, p = fr(sym('q'), 'j'), fr(DIM, 'p')
        return [Post('mean', 'mu', (j,), lambda: S('mu', j)), Post('its gradient', 'dm', (j, p), lambda: S('dm', j, p))]
    return Ob(f'calc_model_mean_w_data_init{" rescaled" if scl else ""}{" gradients" if grad else ""}', ['C11', 'C12'] if grad else ['C11'],
              ['GpEvalModel.calc_model_mean_w_data_init'], inputs, run, posts, partial=True)


def obligations():
    return data() + hpara() + wrappers()
