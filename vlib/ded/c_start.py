"""Contracts of the bounds and the starting points of the optimisation."""
from fractions import Fraction

from . import eng, ints, lemma, terms, npshim
from .eng import Arr, RealCond
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, fresh, fn
from .prover import Ob, Post, Inputs, make, Outside
from .c_layout import fr
from .c_cov import callee, stub, same, flag
from .c_state import refused, swapped, GP
from .c_hp import entries, NOISES, LOGS, HPI

DIM, I0, NO, W, NX = sym('dim'), sym('i'), sym('no'), sym('w'), sym('nx')
X0 = 'gpgradpy.src.optz.GpHparaX0'
terms.POS |= {'lf-1', 'bf-lf'}
LF = ONE + S('lf-1')
BF = LF + S('bf-lf')
NAMES = dict(theta='hp_theta', kernel='hp_kernel', varK='hp_varK', var_fval='hp_var_fval', var_fgrad='hp_var_fgrad')
INIT = dict(theta='hp_theta_init', kernel='hp_kernel_default', varK='hp_varK_init', var_fval='hp_var_fval_init', var_fgrad='hp_var_fgrad_init')


def most(a, b):
    return npshim.maximum(a, b).fn((), {})


def least(a, b):
    return npshim.minimum(a, b).fn((), {})


def within(med, lo, hi, f):
    """the median within the range, and the lower and upper bound of a hyperparameter with the factor f"""
    m = least(most(med, lo), hi)
    return m, most(m * terms.power(f, -1), lo), least(m * f, hi)


def admissible():
    """lemma: the bounds of the contract are ordered, stay in the range and hold the box of the starting points; the
    logarithm is increasing, so that the same holds for the entries that are logarithms"""
    def run(w, d):
        lo, hi = S('r'), S('r') + S('width')
        m, a0, b0 = within(S('median'), lo, hi, LF)
        _, a1, b1 = within(S('median'), lo, hi, BF)
        return dict(ok=flag(lemma.proves([], [m - lo, hi - m, a1 - lo, a0 - a1, m - a0, b0 - m, b1 - b0, hi - b1])))

    def inputs():
        return Inputs().real('lf-1', pos=True).real('bf-lf', pos=True).real('r', pos=True).real('width', pos=True)
    return Ob('lemma: the boxes of the starting points and of the optimisation', ['C16'], ['GpHparaX0.get_hp_x0_lhs_median'], inputs, run,
              lambda d, o: [Post('range, box and starting points are nested', 'ok', (), lambda: ONE)], conformable=False)


def bounds():
    out = []
    n = 0
    for kernel in (False, True):
        for noise in NOISES:
            for hist in ('first', 'early', 'full', 'window', 'unused'):
                lgs = LOGS if not kernel and len(noise) < 2 else [LOGS[n % 4]]
                for lg in lgs if hist == 'window' else lgs[:1]:
                    out.append(_bounds(True, kernel, noise, lg, hist))
                n += 1
    out.append(_bounds(True, False, (), LOGS[0], 'window', dim=1))
    out.append(_bounds(True, False, (), LOGS[1], 'first', dim=1))
    out.append(_bounds(False, True, (), LOGS[0], 'window'))
    out.append(_bounds(False, False, NOISES[4], LOGS[0], 'window'))
    return out


def _median(nm, hist, k=None):
    """median of the last stored values"""
    lo = I0 - W if hist == 'window' else ip(0)
    n = W if hist == 'full' else I0 - lo
    if nm == 'theta':
        return npshim.median(Arr((n, DIM), lambda i, e: S('hp_theta_all', lo + i[0], i[1])), axis=0).fn((k,), {})
    return npshim.median(Arr((n,), lambda i, e: S(f'{NAMES[nm]}_all', lo + i[0])), axis=0).fn((), {})


def _bounds(theta, kernel, noise, lg, hist, dim=None):
    dm = DIM if dim is None else ip(dim)
    names, size = entries(theta, kernel, noise, lg, dm)
    every = (['theta'] if theta else []) + [n for n, p, l in names]
    one = dim == 1 or (not theta and len(names) == 1)

    def inputs():
        # the ranges are not empty and hold positive numbers, the factors are at least one, and the second at least the first
        i = Inputs().real('lf-1', pos=True).real('bf-lf', pos=True).int('dim', dm).int('i', ip(0) if hist == 'first' else W if hist == 'full' else I0).int('w', W).int('nx', NX).real('s', NX, size)
        for n in every:
            i.real(INIT[n], pos=True).real(n + ':lo', pos=True).real(n + ':width', pos=True)
            i.real(f'{NAMES[n]}_all', NO, *((dm,) if n == 'theta' else ()), pos=True)
        i.assume(Cond('>=', NX - 1), Cond('>=', W - 1))
        if not names and dim is None:
            i.assume(Cond('>=', DIM - 2))
        if hist != 'first':
            now = W if hist == 'full' else I0
            i.assume(Cond('>=', now - 1), Cond('>=', NO - now))
        if hist in ('early', 'window'):
            i.assume(Cond('>=', W - I0 - 1) if hist == 'early' else Cond('>=', I0 - W - 1))
        return i

    def run(w, d):
        mod = w.get(X0)
        kw = {}
        for n in every:
            kw[INIT[n]] = d[INIT[n]]
            kw[f'{NAMES[n]}_range'] = [d[n + ':lo'], d[n + ':lo'] + d[n + ':width']]
            kw[f'{NAMES[n]}_all'] = d[f'{NAMES[n]}_all']
        o = make(w.get(GP), dim=d['dim'], hp_lhs_bound_factor=1 + d['lf-1'], hp_box_bound_factor=1 + d['lf-1'] + d['bf-lf'], hp_median_n_idx=d['w'], _save_data=hist != 'unused',
                 kernel_has_hp=kernel, known_eps_fval='var_fval' not in noise, known_eps_fgrad='var_fgrad' not in noise, optz_log_hp_theta=lg[0],
                 optz_log_hp_var=lg[1], optz_log_hp_kernel=lg[2], **kw)
        info = o.set_hp_optz_info(theta, kernel, bool(noise), 'var_fval' in noise, 'var_fgrad' in noise)
        seen = []

        class LHS:
            def __init__(self, xlimits=None, seed=None, random_state=None, **k):
                if seed is not None and random_state is not None:
                    raise TypeError
                self.x, self.s = xlimits, seed if random_state is None else random_state
                self.k = k
                seen.append(self)

            def __call__(self, n):
                self.n = n
                return d['s'].copy()
        with swapped(mod, LHS=LHS):
            x0, box = o.get_hp_x0_lhs_median(d['i'], info, d['nx'])
        r = dict(lb=box.lb, ub=box.ub, x0=x0, rep=1, n=d['nx'], feas=flag(box.keep_feasible is True or hasattr(box.keep_feasible, 'all') and bool(box.keep_feasible.all())), what=flag(len(seen) == (0 if one else 1)))
        if not one:
            r.update(xl=seen[0].x, n=seen[0].n, rep=flag(isinstance(seen[0].s, int) and not seen[0].k))
        return r

    def entry(nm, k, f):
        med = S(INIT[nm]) if hist in ('first', 'unused') else _median(nm, hist, k)
        m, a, b = within(med, S(nm + ':lo'), S(nm + ':lo') + S(nm + ':width'), f)
        lgn = lg[0] if nm == 'theta' else [l for n, p, l in names if n == nm][0]
        return [log10(x) if lgn else x for x in (a, b)]

    def log10(x):
        return npshim.log10(x).fn((), {})

    def posts(d, o):
        l = [Post('repeatable', 'rep', (), lambda: ONE), Post('number of points', 'n', (), lambda: T(NX)), Post('kept feasible', 'feas', (), lambda: ONE),
             Post('Latin hypercube, or evenly spaced in one dimension', 'what', (), lambda: ONE)]
        if o is not None and not one and 'xl' not in o:
            return l
        at = ([('theta', ip(0) if dim == 1 else fr(dm, 'k'))] if theta else []) + [(n, p) for n, p, lo in names]
        j = fr(NX, 'j')
        for nm, p in at:
            k = p if nm == 'theta' else None
            l += [Post(f'lower bound of {nm}', 'lb', (p,), lambda nm=nm, k=k: entry(nm, k, BF)[0]),
                  Post(f'upper bound of {nm}', 'ub', (p,), lambda nm=nm, k=k: entry(nm, k, BF)[1])]
            if not one:
                l += [Post(f'smallest start of {nm}', 'xl', (p, ip(0)), lambda nm=nm, k=k: entry(nm, k, LF)[0]),
                      Post(f'largest start of {nm}', 'xl', (p, ip(1)), lambda nm=nm, k=k: entry(nm, k, LF)[1]),
                      Post(f'starting points: {nm}', 'x0', (j, p), lambda p=p: S('s', j, p))]
            else:
                def even(nm=nm, k=k):
                    a, b = entry(nm, k, LF)
                    return a + (b - a) * T(j + 1) * terms.power(T(NX + 1), -1)
                l.append(Post(f'starting points: {nm}', 'x0', (j, p), even))
        return l
    return Ob(f'get_hp_x0_lhs_median {hist}{" theta" if theta else ""}{" kernel" if kernel else ""} {" ".join(noise)} {"".join("L" if x else "-" for x in lg)}'
              f'{"" if dim is None else f" dim {dim}"}', ['C16'], ['GpHparaX0.get_hp_x0_lhs_median'], inputs, run, posts,
              raises=lambda e, q: q is not None and 'Invalid bounds' in str(e), shapes=dict(lb=(size,), ub=(size,), x0=(NX, size)), partial=True,
              trusts=['smt.sampling_methods.LHS returns n points inside of its xlimits, the same ones for the same seed; np.median is the median'])


# ---------------------------------------------------------------- selection of the starting points
NH = sym('nh')


def select():
    """select_hp_optz_x0: all points of the sample, or the best one of them (bounded: at most three candidates)"""
    out = []
    for start in ('lhs', 'hp_best'):
        for precon in (False, True):
            if start == 'lhs':
                out.append(_select(start, precon, None))
                continue
            for n in (1, 2, 3):
                for k in range(1, 2 ** n):
                    if n < 3 or k in (7, 5, 2):
                        out.append(_select(start, precon, tuple(bool(k >> j & 1) for j in range(n))))
    return out


def best(d, precon, good):
    """index of the best candidate, from the conditions that hold on the path"""
    ok = [j for j in range(len(good)) if good[j]]
    val = lambda j: S('l', ip(j))
    cond = lambda j: S('c', ip(j))
    if not precon:
        fit = [j for j in ok if not eng.must(RealCond('>', cond(j) - T(Fraction(6, 5)) * S('cm')))]
        if not fit:
            r = ok[0]
            for j in ok[1:]:
                if eng.must(RealCond('>', cond(r) - cond(j))):
                    r = j
            return r
        ok = fit
    r = ok[0]
    for j in ok[1:]:
        if eng.must(RealCond('>', val(j) - val(r))):
            r = j
    return r


def _select(start, precon, good):
    lhs = start == 'lhs'
    n = NX if lhs else ip(len(good))

    def inputs():
        i = Inputs().int('i', I0).int('nx', NX).real('s', n, NH).real('cm', pos=True)
        if not lhs:
            i.real('l', n).real('c', n, pos=True)
        return i

    def run(w, d):
        info, box, hinfo = object(), object(), object()
        seen, done = [], set()
        if not w.sym and any(same(d['s'][j], d['s'][k]) for k in range(len(good)) for j in range(k)):
            raise Outside('equal candidates')

        class Hp:
            def __init__(self, k):
                self.k = k

        def x0(i, inf, num):
            seen.append(('x0', inf is info, i, num))
            return d['s'], box

        def vec(inf, v):
            seen.append(('vec', inf is hinfo))
            for k in range(len(good)):
                if same(v, d['s'][k]):
                    return Hp(k)
            seen.append(('vec', False))
            return Hp(0)

        def lkd(hp, calc_lkd=True, calc_cond=False, calc_grad=False):
            seen.append(('lkd', bool(calc_lkd) and bool(calc_cond or precon)))
            done.add(hp.k)
            if not good[hp.k]:
                return make(LkdInfo, ln_lkd=None, cond=None), False
            return make(LkdInfo, ln_lkd=d['l'][hp.k], cond=d['c'][hp.k] if calc_cond else None), True
        o = make(w.get(GP), lkd_optz_start_mtd=start, optz_n_x0=d['nx'] if lhs else len(good) + 1, lkd_hp_best_n_eval=d['nx'] + 1 if lhs else len(good),
                 wellcond_mtd='precon' if precon else 'base', hp_info_optz_lkd=hinfo, cond_max=d['cm'], get_hp_x0_lhs_median=x0, hp_vec2dataclass=vec,
                 calc_lkd_all=lkd)
        x, b, t = o.select_hp_optz_x0(d['i'], info)
        num = seen[0][3]
        return dict(x=x, what=flag(b is box and all(s[1] for s in seen) and len([s for s in seen if s[0] == 'x0']) == 1
                                   and len(done) == (0 if lhs else len(good))),
                    i=seen[0][2], n=num)

    def posts(d, o):
        l = [Post('asks for the right things, for every candidate', 'what', (), lambda: ONE), Post('optimisation number', 'i', (), lambda: T(I0)),
             Post('number of points', 'n', (), lambda: T(NX) if lhs else T(len(good)))]
        j, k = fr(NX, 'j'), fr(NH, 'k')
        if lhs:
            l.append(Post('all starting points', 'x', (j, k), lambda: S('s', j, k)))
        else:
            l.append(Post('the best candidate', 'x', (ip(0), k), lambda: S('s', ip(best(d, precon, good)), k)))
        return l
    return Ob(f'select_hp_optz_x0 {start}{" precon" if precon else ""} {"" if lhs else "".join("+" if g else "-" for g in good)}', ['C16'],
              ['GpHparaX0.select_hp_optz_x0'], inputs, run, posts, stubs=None, shapes=dict(x=(n if lhs else ip(1), NH)), partial=True,
              bounded=None if lhs else f'{len(good)} candidates')


class LkdInfo:
    pass


def obligations():
    return bounds() + [admissible()] + select()
