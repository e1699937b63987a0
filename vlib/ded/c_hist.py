"""Contracts of the history: what is stored, recalled, kept, exported and loaded."""
from . import eng, ints, terms, npshim
from .eng import Arr, RealCond
from .ints import ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, fresh, mk_sum
from .prover import Ob, Post, Inputs, make, Broken
from .c_layout import fr
from .c_cov import callee, stub, same, flag
from .c_state import refused, swapped, GP, HPV

NO, NM, NF, DIM, I0 = sym('no'), sym('nm'), sym('nf'), sym('dim'), sym('i')
PAR = 'gpgradpy.src.base.GpParaDef'
INFO = 'gpgradpy.src.base.GpInfo'
# the arrays of the history that have one row for each iteration, and what a row holds
VEC = ('hp_varK_all', 'hp_var_fval_all', 'hp_var_fgrad_all', 'hp_kernel_all', 'min_nugget_all', 'Kcov_cond_all', 'eta_Kbase_all', 'eta_Kgrad_all', 'vmin_init_all',
       'vmin_req_grad_all', 'hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail_all', 'optz_n_cond2big_all',
       'optz_max_init_cond_all', 'time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all', 'var_fval', 'varK_var_fval')
MAT = {'hp_beta_all': ip(1), 'hp_theta_all': DIM, 'xvec_rescaling_all': DIM}
BOO = ('Kcov_cond_at_max_all',)
ALL = VEC + tuple(MAT) + BOO


def rows(i, n=NO, p=''):
    """an arbitrary history of n iterations"""
    for k in VEC + BOO:
        i.real(p + k, n)
    for k, m in MAT.items():
        i.real(p + k, n, m)
    return i


def hist(d, p=''):
    return {k: d[p + k] > 0 if k in BOO else d[p + k].copy() for k in ALL}


def row(k, j, e, p=''):
    """entry of the arbitrary history"""
    if k in BOO:
        return ONE if eng.must(RealCond('>', S(p + k, j))) else ZERO
    return S(p + k, j, *((e,) if k in MAT else ()))


def idx(k, j, e):
    return (j, e[k]) if k in MAT else (j,)


def cols():
    return {k: (ip(0) if m == ip(1) or k == 'hp_beta_all' else fr(DIM, 'c' + k)) for k, m in MAT.items()}


def numbers(w, a):
    return a if w.sym else a + 0.0


def out(w, o):
    return {k: numbers(w, getattr(o, k)) for k in ALL}


# ---------------------------------------------------------------- the history is empty at first
def init():
    def run(w, d):
        o = make(w.get(GP), dim=d['dim'], n_beta_coeff=1)
        o.init_optz_surr(d['no'])
        if not o._save_data:
            raise Broken('the history is not in use')
        return dict(out(w, o), n=o.n_optz_max)

    def posts(d, o):
        j, e = fr(NO, 'j'), cols()
        return [Post('number of iterations', 'n', (), lambda: T(NO))] + \
            [Post(f'{k} is empty', k, idx(k, j, e), lambda k=k: ZERO if k in BOO else npshim.NAN) for k in ALL]
    return [Ob('init_optz_surr', ['C18'], ['GpParaDef.init_optz_surr'], lambda: Inputs().int('dim', DIM).int('no', NO), run, posts,
               shapes={k: (NO,) + ((MAT[k],) if k in MAT else ()) for k in ALL}, partial=True)]


# ---------------------------------------------------------------- store
KEYS = ('hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good')
KEYS2 = {'optz_n_cho_fail': 'optz_n_cho_fail_all', 'optz_n_cond2big': 'optz_n_cond2big_all', 'optz_max_init_cond': 'optz_max_init_cond_all'}


def hpin(i):
    return i.real('be', 1).real('th', DIM, pos=True).real('k', pos=True).real('vK', pos=True).real('vf', pos=True).real('vg', pos=True)


def hpv(w, d, kernel, vf, vg):
    return w.get(HPV)(d['be'], d['th'], d['k'] if kernel else None, d['vK'], d['vf'] if vf else None, d['vg'] if vg else None)


def store():
    out = []
    n = 0
    for grad in (True, False):
        for scl in (True, False):
            for kernel, vf, vg in ((True, True, True), (False, False, False), (True, True, False), (False, False, True)):
                for info in (None, 'all', 'some'):
                    if vg and not grad or scl and not grad:
                        continue
                    out.append(_store(grad, scl, kernel, vf, vg, info, True))
        out.append(_store(grad, False, True, True, grad, None, False))
    return out


def _state(w, d, cls, scl, grad, **kw):
    return make(cls, _save_data=True, use_grad=grad, b_use_data_scl=scl, _eta_Kgrad=d['e1'], _eta_Kbase=d['e0'], cond_max=d['cm'], _vmin_init=d['v0'], _vmin_req_grad=d['v1'],
                _fval_in=d['f'], **kw)


def _inputs():
    i = rows(hpin(Inputs()).int('i', I0)).int('no', NO).int('dim', DIM).real('f', NF).assume(Cond('>=', I0), Cond('>=', NO - 1 - I0))
    for k in ('e0', 'e1', 'cm', 'c', 'v0', 'v1', 't0', 't1', 't2'):
        i.real(k, pos=True)
    for k in KEYS + tuple(KEYS2):
        i.real('s' + k, pos=True)
    return i.real('xs', DIM, pos=True)


def variance():
    a, b = fresh(NF), fresh(NF)
    m = mk_sum(S('f', sym(b)), b) * terms.power(T(NF), -1)
    return mk_sum((S('f', sym(a)) - m) ** 2, a) * terms.power(T(NF), -1)


def _store(grad, scl, kernel, vf, vg, info, save):
    def run(w, d):
        class Scl:
            xvec_scale = d['xs']
        h = hpv(w, d, kernel, vf, vg)
        o = _state(w, d, w.get(GP), scl, grad, DataScl=Scl, **hist(d))
        o._save_data = save
        s = None
        if info:
            s = {k: d['s' + k] for k in (KEYS if info == 'all' else ()) + tuple(KEYS2)}
        keep = dict(s or {})
        o.store_new_para_surr(d['i'], h, s, d['c'], d['t0'], d['t1'], d['t2'])
        r = dict(out(w, o), hp=flag(same(o.hp_vals, h)), arg=flag(list(s or {}) == list(keep) and all(same(s[k], keep[k]) for k in keep)),
                 none=flag((h.kernel is None) == (not kernel) and (h.var_fval is None) == (not vf) and (h.var_fgrad is None) == (not vg)))
        return r

    def value(k):
        """the entry of this iteration; None: as it was"""
        opt = lambda b, nm: S(nm) if b else npshim.NAN
        v = dict(hp_varK_all=lambda: S('vK'), hp_var_fval_all=lambda: opt(vf, 'vf'), hp_var_fgrad_all=lambda: opt(vg, 'vg'), hp_kernel_all=lambda: opt(kernel, 'k'),
                 min_nugget_all=lambda: S('e1' if grad else 'e0'), Kcov_cond_all=lambda: S('c'), eta_Kbase_all=lambda: S('e0'), eta_Kgrad_all=lambda: S('e1'),
                 vmin_init_all=lambda: S('v0'), vmin_req_grad_all=lambda: S('v1'), time_hp_optz_all=lambda: S('t0'), time_chofac_all=lambda: S('t1'),
                 time_pick_hp0_all=lambda: S('t2'), var_fval=variance,
                 Kcov_cond_at_max_all=lambda: ONE if eng.must(RealCond('>=', S('c') - T(eng.Fraction(99, 100)) * S('cm'))) else ZERO)
        if info:
            v.update({a: (lambda b=b: S('s' + b)) for b, a in KEYS2.items()})
        if info == 'all':
            v.update({a: (lambda a=a: S('s' + a)) for a in KEYS})
        return v.get(k)

    def posts(d, o):
        j, e = fr(NO, 'j'), cols()
        l = [Post('hyperparameters in use', 'hp', (), lambda: ONE), Post('the statistics are not changed', 'arg', (), lambda: ONE),
             Post('missing hyperparameters stay missing', 'none', (), lambda: ONE)]
        for k in ALL:
            l.append(Post(f'other iterations: {k}', k, idx(k, j, e), lambda k=k: row(k, j, e.get(k)), (Cond('>=', j - I0 - 1),)))
            l.append(Post(f'other iterations: {k}', k, idx(k, j, e), lambda k=k: row(k, j, e.get(k)), (Cond('>=', I0 - j - 1),)))
            at = idx(k, I0, e)
            f = value(k) if save else None
            if k == 'varK_var_fval' and save:
                f = lambda: S('vK') * terms.power(variance(), -1) if eng.must(RealCond('>', variance())) else row(k, I0, None)
                l.append(Post(k, k, at, lambda: S('vK') * terms.power(variance(), -1) if eng.must(RealCond('>', variance())) else row('varK_var_fval', I0, None)))
                continue
            if save and k in ('hp_beta_all', 'hp_theta_all') or save and scl and k == 'xvec_rescaling_all':
                f = lambda k=k: S({'hp_beta_all': 'be', 'hp_theta_all': 'th', 'xvec_rescaling_all': 'xs'}[k], at_(k))
                at_ = lambda k: e[k]
            l.append(Post(k, k, at, f if f else (lambda k=k: row(k, I0, e.get(k)))))
        return l
    nm = f'store_new_para_surr{" gradients" if grad else ""}{" rescaled" if scl else ""}{" kernel" if kernel else ""}{" var_fval" if vf else ""}{" var_fgrad" if vg else ""}' \
         f'{" statistics " + info if info else ""}{"" if save else " without history"}'
    return Ob(nm, ['C18', 'C17'], ['GpParaDef.store_new_para_surr'], _inputs, run, posts, partial=True)


# ---------------------------------------------------------------- recall
def recall():
    out = []
    for scl in (True, False):
        for vf in (True, False):
            for vg in (True, False):
                for n in ((False, True) if scl else (False,)):
                    out.append(_recall(scl, vf, vg, n))
        for kernel in (True, False):
            for vf, vg in ((True, True), (False, False)):
                out.append(_roundtrip(scl, kernel, vf, vg))
    return out


def _recall(scl, vf, vg, moved):
    """the hyperparameters of a stored iteration, with the coordinate scaling they were found with"""
    def inputs():
        i = rows(Inputs()).int('i', I0).real('xs', DIM, pos=True).assume(Cond('>=', I0), Cond('>=', NO - 1 - I0))
        if moved:
            i.assume(RealCond('>', ss()))
        return i

    def ss():
        a = fresh(DIM)
        return mk_sum((S('xvec_rescaling_all', I0, sym(a)) - S('xs', sym(a))) ** 2, a)

    def run(w, d):
        class Scl:
            def __init__(self):
                self.xvec_scale, self.n = d['xs'].copy(), 0

            def set_xscale_data(self, x_shift_in=None, xvec_scale_in=None):
                if x_shift_in is not None:
                    raise AssertionError('shift')
                self.xvec_scale = xvec_scale_in
                self.n += 1
        h = hist(d)
        for k, b in (('hp_var_fval_all', vf), ('hp_var_fgrad_all', vg)):
            if not b:
                h[k][d['i']] = w.np.nan
        o = make(w.get(GP), b_use_data_scl=scl, DataScl=Scl() if scl else None, hp_vals=None, known_eps_fval=None, known_eps_fgrad=None, **h)
        o.set_hp_from_idx(d['i'])
        v = o.hp_vals
        r = dict(be=v.beta, th=v.theta, k=v.kernel, vK=v.varK, none=flag((v.var_fval is None) == (not vf) and (v.var_fgrad is None) == (not vg)),
                 known=flag(bool(o.known_eps_fval) == (not vf) and bool(o.known_eps_fgrad) == (not vg)))
        if vf:
            r['vf'] = v.var_fval
        if vg:
            r['vg'] = v.var_fgrad
        if scl:
            r['xs'] = o.DataScl.xvec_scale
            r['n'] = o.DataScl.n
        for k in ALL:
            r[k] = numbers(w, getattr(o, k))
        return r

    def posts(d, o):
        e, c, j = cols(), fr(DIM, 'c'), fr(NO, 'j')
        l = [Post('coefficient of the mean', 'be', (ip(0),), lambda: S('hp_beta_all', I0, ip(0))), Post('theta', 'th', (c,), lambda: S('hp_theta_all', I0, c)),
             Post('kernel hyperparameter', 'k', (), lambda: S('hp_kernel_all', I0)), Post('varK', 'vK', (), lambda: S('hp_varK_all', I0)),
             Post('variances that are not stored are missing', 'none', (), lambda: ONE), Post('the noise is known if its variance is not stored', 'known', (), lambda: ONE)]
        if vf:
            l.append(Post('variance of the values', 'vf', (), lambda: S('hp_var_fval_all', I0)))
        if vg:
            l.append(Post('variance of the gradients', 'vg', (), lambda: S('hp_var_fgrad_all', I0)))
        if scl:
            if moved:
                l += [Post('scaling of the coordinates', 'xs', (c,), lambda: S('xvec_rescaling_all', I0, c)), Post('set once', 'n', (), lambda: ONE)]
            else:
                l.append(Post('scaling of the coordinates', 'xs', (c,), lambda: S('xs', c) if eng.must(RealCond('==', ss())) else S('xvec_rescaling_all', I0, c)))
        for k in ALL:
            if k not in ('hp_var_fval_all', 'hp_var_fgrad_all'):
                l.append(Post(f'{k} is kept', k, idx(k, j, e), lambda k=k: row(k, j, e.get(k))))
        return l
    return Ob(f'set_hp_from_idx{" rescaled" if scl else ""}{" to another scaling" if moved else ""}{" var_fval" if vf else ""}{" var_fgrad" if vg else ""}', ['C18', 'C22'],
              ['GpHpara.set_hp_from_idx'], inputs, run, posts, partial=True)


def _roundtrip(scl, kernel, vf, vg):
    """storing and recalling an iteration gives back the hyperparameters, whatever was stored before"""
    def run(w, d):
        class Scl:
            def __init__(self):
                self.xvec_scale = d['xs']

            def set_xscale_data(self, x_shift_in=None, xvec_scale_in=None):
                self.xvec_scale = xvec_scale_in
        h = hpv(w, d, kernel, vf, vg)
        o = _state(w, d, w.get(GP), scl, True, DataScl=Scl() if scl else None, **hist(d))
        o.known_eps_fval = o.known_eps_fgrad = None
        o.store_new_para_surr(d['i'], h, None, d['c'])
        if scl:
            o.DataScl.xvec_scale = d['ys']
        o.hp_vals = None
        o.set_hp_from_idx(d['i'])
        v = o.hp_vals
        r = dict(be=v.beta, th=v.theta, vK=v.varK, none=flag((v.var_fval is None) == (not vf) and (v.var_fgrad is None) == (not vg)))
        for n, b, x in (('k', kernel, v.kernel), ('vf', vf, v.var_fval), ('vg', vg, v.var_fgrad)):
            if b:
                r[n] = x
        if scl:
            r['xs'] = o.DataScl.xvec_scale
        return r

    def posts(d, o):
        c = fr(DIM, 'c')
        l = [Post('coefficient of the mean', 'be', (ip(0),), lambda: S('be', ip(0))), Post('theta', 'th', (c,), lambda: S('th', c)), Post('varK', 'vK', (), lambda: S('vK')),
             Post('missing variances', 'none', (), lambda: ONE)]
        l += [Post(n, n, (), lambda n=n: S(n)) for n, b in (('k', kernel), ('vf', vf), ('vg', vg)) if b]
        if scl:
            l.append(Post('scaling of the coordinates', 'xs', (c,), lambda: S('xs', c)))
        return l
    def inputs():
        i = _inputs().real('ys', DIM, pos=True)
        a = fresh(DIM)
        return i.assume(RealCond('>', mk_sum((S('xs', sym(a)) - S('ys', sym(a))) ** 2, a))) if scl else i
    return Ob(f'store and recall{" rescaled" if scl else ""}{" kernel" if kernel else ""}{" var_fval" if vf else ""}{" var_fgrad" if vg else ""}', ['C18'],
              ['GpParaDef.store_new_para_surr', 'GpHpara.set_hp_from_idx'], inputs, run, posts, partial=True)


# ---------------------------------------------------------------- finish, export, load
class Over:
    """a module with some of its functions replaced"""

    def __init__(self, mod, **new):
        self.__dict__.update(new)
        self._mod = mod

    def __getattr__(self, n):
        return getattr(self._mod, n)


def keep():
    def frun(w, d):
        o = make(w.get(GP), _save_data=True, n_optz_max=d['no'], **hist(d))
        o.finish_optz_surr(d['nm'])
        return out(w, o)

    def fposts(d, o):
        j, e = fr(NM, 'j'), cols()
        return [Post(f'first iterations: {k}', k, idx(k, j, e), lambda k=k: row(k, j, e.get(k))) for k in ALL]
    obs = [Ob('finish_optz_surr', ['C18'], ['GpParaDef.finish_optz_surr'], lambda: rows(Inputs()).int('no', NO).int('nm', NM).assume(Cond('>=', NO - NM)), frun, fposts,
              shapes={k: (NM,) + ((MAT[k],) if k in MAT else ()) for k in ALL}, partial=True)]
    for how in ('dict', 'file', 'named file'):
        obs.append(_export(how))
        if how != 'named file':
            obs.append(_load(how))
    for m in ('finish_optz_surr', 'export_data_surr', 'load_data_surr'):
        obs.append(_norefuse(m))
    for old in (True, False):
        for fn_ in ('npz', 'txt'):
            obs.append(_backup(old, fn_))
    return obs


def _export(how):
    """every array of the history is exported under its name"""
    def run(w, d):
        o = make(w.get(GP), _save_data=True, surr_name='s_', path_surr_npz='p.npz', path_surr_old_npz='o.npz', **hist(d))
        seen = []
        o.save_npz_data = lambda data2save, file2save, file2save_old: seen.append((data2save, file2save, file2save_old))
        if how == 'dict':
            a = o.export_data_surr(save2file=False)
        elif how == 'file':
            a = o.export_data_surr()
        else:
            a = o.export_data_surr(True, 'a.npz', 'b.npz')
        ok = not seen if how == 'dict' else len(seen) == 1 and seen[0][1:] == (('p.npz', 'o.npz') if how == 'file' else ('a.npz', 'b.npz')) and \
            set(seen[0][0]) == set(a) and all(same(seen[0][0][k], a[k]) for k in a)
        if not {'s_' + k for k in ALL} <= set(a):
            return dict(names=0)
        return dict({k: numbers(w, a['s_' + k]) for k in ALL}, names=1, file=flag(ok))

    def posts(d, o):
        j, e = fr(NO, 'j'), cols()
        l = [Post('all arrays of the history', 'names', (), lambda: ONE)]
        if o is not None and 'file' not in o:
            return l
        return l + [Post('what is written', 'file', (), lambda: ONE)] + [Post(f'exported {k}', k, idx(k, j, e), lambda k=k: row(k, j, e.get(k))) for k in ALL]
    return Ob(f'export_data_surr {how}', ['C18'], ['GpParaDef.export_data_surr'], lambda: rows(Inputs()), run, posts, partial=True)


def _load(how):
    """the loaded history replaces the first iterations"""
    def run(w, d):
        mod = w.get(PAR)
        o = make(w.get(GP), _save_data=True, surr_name='s_', path_surr_npz='p.npz', n_beta_coeff=1, **hist(d))
        a = {'s_' + k: v for k, v in hist(d, 'n_').items()}
        a.update({'other_' + k: v for k, v in hist(d, 'n_').items()})
        if how == 'dict':
            o.load_data_surr(a)
        else:
            class Files:
                @staticmethod
                def isfile(p):
                    return p == 'p.npz'
            with swapped(mod, np=Over(mod.np, load=lambda p: a if p == 'p.npz' else None), os=Over(mod.os, path=Files)):
                o.load_data_surr()
        return out(w, o)

    def posts(d, o):
        j, i, e = fr(NO, 'j'), fr(NM, 'i'), cols()
        l = []
        for k in ALL:
            l.append(Post(f'loaded {k}', k, idx(k, i, e), lambda k=k: row(k, i, e.get(k), 'n_')))
            l.append(Post(f'later iterations: {k}', k, idx(k, j, e), lambda k=k: row(k, j, e.get(k)), (Cond('>=', j - NM),)))
        return l
    return Ob(f'load_data_surr {how}', ['C18'], ['GpParaDef.load_data_surr'], lambda: rows(rows(Inputs()), NM, 'n_').assume(Cond('>=', NO - NM)), run, posts, partial=True)


def _norefuse(m):
    def run(w, d):
        o = make(w.get(GP), _save_data=False, surr_name='s_', path_surr_npz='p.npz', path_surr_old_npz='o.npz', n_beta_coeff=1, **hist(d))
        o.save_npz_data = lambda *a: None
        a = dict(finish_optz_surr=(d['no'],), export_data_surr=(False,), load_data_surr=({'s_' + k: v for k, v in hist(d).items()},))[m]
        return dict(no=flag(refused(lambda: getattr(o, m)(*a))))
    return Ob(f'{m} without history', ['C18'], ['GpParaDef.' + m], lambda: rows(Inputs()).int('no', NO), run, lambda d, o: [Post('refused', 'no', (), lambda: ONE)], partial=True)


def _backup(old, kind):
    """a previous file is kept before the new one is written"""
    def run(w, d):
        mod = w.get(PAR if kind == 'npz' else INFO)
        log = []

        class Files:
            @staticmethod
            def isfile(p):
                return old and p == 'a'

        class File:
            def __init__(self, p, mode):
                self.p = p
                if mode != 'w':
                    raise AssertionError('mode')

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def write(self, s):
                log.append(('write', self.p, s))
        os = Over(mod.os, path=Files, replace=lambda a, b: log.append(('move', a, b)), rename=lambda a, b: log.append(('move', a, b)))
        mod.__dict__.setdefault('open', open)
        save = lambda p, **k: log.append(('write', p, k))
        arr = d['a']
        with swapped(mod, os=os, open=File, np=Over(mod.np, savez=save, savez_compressed=save)):
            if kind == 'npz':
                w.get(GP).save_npz_data(dict(x=arr), 'a', 'b')
            else:
                w.get(GP).save_txt_data('text', 'a', 'b')
        want = ([('move', 'a', 'b')] if old else []) + [('write', 'a')]
        ok = [x if x[0] == 'move' else x[:2] for x in log] == want
        if ok:
            ok = (list(log[-1][2]) == ['x'] and same(log[-1][2]['x'], arr)) if kind == 'npz' else log[-1][2] == 'text'
        return dict(ok=flag(ok))
    return Ob(f'{"save_npz_data" if kind == "npz" else "save_txt_data"}{" over a previous file" if old else ""}', ['C18'],
              ['GpParaDef.save_npz_data' if kind == 'npz' else 'GpInfo.save_txt_data'], lambda: Inputs().real('a', NF), run,
              lambda d, o: [Post('the previous file is moved before the new one is written', 'ok', (), lambda: ONE)], partial=True)


# ---------------------------------------------------------------- report
DIMS = (1, 2, 3, 5)


def report():
    out = [_report('theta', dim) for dim in DIMS] + [_report('optz', 2)]
    for dim in DIMS:
        for vf, vg in ((True, True), (False, False), (True, False), (False, True)):
            out.append(_report('summary', dim, vf, vg))
    for p, s in ((True, True), (False, True), (True, False), (False, False), (None, None)):
        out.append(_text(p, s))
    return out


def _report(what, dim, vf=False, vg=False):
    """the table lists what is stored"""
    def inputs():
        i = Inputs()
        for k in VEC + BOO:
            i.real(k, NO)
        return i.real('hp_beta_all', NO, 1).real('hp_theta_all', NO, dim)

    def run(w, d):
        mod = w.get(INFO)
        seen = []

        def table(data, headers=None, tablefmt=None, floatfmt=None):
            seen.append((data, headers))
            return '<table>'
        h = {k: d[k] > 0 if k in BOO else d[k].copy() for k in VEC + BOO + ('hp_beta_all', 'hp_theta_all')}
        o = make(w.get(GP), dim=dim, n_beta_coeff=1, b_optz_var_fval=vf, b_optz_var_fgrad=vg, **h)
        with swapped(mod, tabulate=table):
            t = getattr(o, 'info_surr_' + what)(False)
        (data, headers), = seen
        r = {f'c{k}': data[:, k] for k in range(len(columns(None)))}
        return dict(r, n=data.shape[1], rows=data.shape[0], h=len(headers), text=flag('<table>' in t))

    def columns(j):
        r = lambda k, *a: (lambda: row(k, j, *a) if a else S(k, j))
        th = lambda k: (lambda: S('hp_theta_all', j, ip(k)))
        at = lambda: Arr((dim,), lambda i, e: S('hp_theta_all', j, *i))
        stat = lambda f: (lambda: npshim_row(f, j))
        if what == 'theta':
            return [lambda: T(j)] + [th(k) for k in range(dim)]
        if what == 'optz':
            return [lambda: T(j), r('time_hp_optz_all'), lambda: S('hp_optz_success', j) * 100, r('hp_optz_iter_mean'), r('hp_optz_iter_max'),
                    lambda: S('hp_optz_con_good', j) * 100, r('Kcov_cond_all'), lambda: row('Kcov_cond_at_max_all', j, None)]
        l = [lambda: T(j), r('hp_kernel_all'), lambda: S('hp_beta_all', j, ip(0)), r('hp_varK_all'), r('varK_var_fval')]
        l += [r('hp_var_fval_all')] if vf else []
        l += [r('hp_var_fgrad_all')] if vg else []
        if dim <= 3:
            return l + [th(k) for k in range(dim)]
        return l + [stat(f) for f in (npshim.np_min, npshim.np_max, npshim.median)]

    def npshim_row(f, j):
        return f(Arr((NO, ip(dim)), lambda i, e: S('hp_theta_all', *i)), axis=1).fn((j,), {})

    def posts(d, o):
        j = fr(NO, 'j')
        l = columns(j)
        p = [Post('number of columns', 'n', (), lambda: T(len(l))), Post('number of rows', 'rows', (), lambda: T(NO)), Post('as many headers', 'h', (), lambda: T(len(l))),
             Post('the table is part of the report', 'text', (), lambda: ONE)]
        return p + [Post(f'column {k}', f'c{k}', (j,), f) for k, f in enumerate(l)]
    return Ob(f'info_surr_{what} {dim}{" var_fval" if vf else ""}{" var_fgrad" if vg else ""}', ['C18'], ['GpInfo.info_surr_' + what], inputs, run, posts, partial=True,
              bounded=f'dimension {dim}, any number of iterations')


def _text(prt, sav):
    """the report is made of the parts, printed and saved as asked"""
    def run(w, d):
        o = make(w.get(GP), print_txt_data=False, save_data_txt=True, path_surr_txt='a', path_surr_old_txt='b', info_surr_options=lambda *a, **k: '<o>',
                 info_surr_summary=lambda *a, **k: '<s>', info_surr_theta=lambda *a, **k: '<t>', info_surr_optz=lambda *a, **k: '<z>')
        log = []
        o.save_txt_data = lambda *a: log.append(a)
        t = o.get_txt_info_surr(prt, sav)
        return dict(t=flag(all(x in t for x in ('<o>', '<s>', '<t>', '<z>'))), s=flag(log == ([(t, 'a', 'b')] if sav is not False else [])))
    return Ob(f'get_txt_info_surr {prt} {sav}', ['C18'], ['GpInfo.get_txt_info_surr', 'GpInfo.info_surr_all_data'], lambda: Inputs().real('u'), run,
              lambda d, o: [Post('all parts', 't', (), lambda: ONE), Post('saved over a backup', 's', (), lambda: ONE)], partial=True)


def obligations():
    return init() + store() + recall() + keep() + report()
