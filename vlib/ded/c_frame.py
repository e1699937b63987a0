"""C20: nothing that is handed over is modified, and an evaluation gives the same result whatever came in between.

The first part takes the runs of all other contracts, with the frame condition as the only obligation: on no path is an
entry of an argument (or of an array that the object holds) written to. The second part evaluates twice, with other
evaluations in between, and requires the same entries."""
import importlib

from . import eng, ints, terms, npshim
from .eng import Arr, as_arr, RealCond
from .ints import IP, ip, sym, Cond
from .terms import Term, T, S, ZERO, ONE, pc, power, fresh, mk_sum
from . import prover
from .prover import Ob, Post, Inputs, make, Broken
from .c_layout import fr
from .c_cov import callee, stub, same, flag, Callee
from .c_hp import HPI, LKD, OPT, ten

# every obligation of a module, or every n-th one where they only differ in what is set beforehand
PARTS = dict(c_kernel=1, c_cov=1, c_lkd=1, c_eval=1, c_scale=1, c_hp=1, c_nugget=2, c_optz=1, c_hist=2, c_layout=1, c_start=3, c_state=6, c_setup=4)


def frames():
    out = []
    for m, step in PARTS.items():
        l = [o for o in importlib.import_module('vlib.ded.' + m).obligations() if o.frame]
        for o in l[::step]:
            out.append(Ob(f'arguments of {o.name}', ['C20'], o.funcs, o.inputs, o.run, lambda d, r: [], o.stubs, raises=o.raises, limit=o.limit,
                          bounded=o.bounded, partial=o.partial, conformable=False, trusts=o.trusts))
    return out


# ---------------------------------------------------------------- the same again
AGAIN = dict(c_cov=1, c_lkd=1, c_eval=1, c_hp=2, c_scale=1, c_nugget=3)
CTRL = (ints.OutOfReach, ints.NeedSplit, eng.NeedRadix, eng._Dead, eng.Timeout_, RecursionError, MemoryError)


def repeats():
    out = []
    for m, step in AGAIN.items():
        # (the stub of the preconditioner does not know other arguments)
        l = [o for o in importlib.import_module('vlib.ded.' + m).obligations() if o.posts is not None and not o.name.startswith('calc_KernGrad_hp precon')]
        out += [_again(o) for o in l[::step]]
    return out


def _again(o):
    """the run of an obligation, the same on the same objects with other values, and the first one again"""
    def inputs():
        i = o.inputs()
        for k, (kind, s, shape) in list(i.decl.items()):
            if kind == 'real' and s not in npshim.SPDN:
                i.real(k + "'", *shape, pos=s in terms.POS, symm=s in terms.SYMM, anti=s in terms.ANTI, sym_name=s + "'")
        return i

    def run(w, d):
        d1 = {k: v for k, v in d.items() if not k.endswith("'")}
        d2 = {k: d.get(k + "'", v) for k, v in d1.items()}
        prover.POOL = pool = prover.Pool()
        try:
            a = o.run(w, d1)
            pool.rewind()
            try:
                o.run(w, d2)
            except CTRL:
                raise
            except Exception:
                pass
            pool.rewind()
            b = o.run(w, d1)
        finally:
            prover.POOL = None
        if set(a) != set(b) or any((a[k] is None) != (b[k] is None) for k in a):
            raise Broken('something else is returned the second time')

        def less(x, y):
            return as_arr(x) - as_arr(y) if w.sym else w.np.asarray(x, dtype=float) - w.np.asarray(y, dtype=float)
        return {**a, **{k + ' again': less(b[k], a[k]) for k in a if a[k] is not None and not isinstance(a[k], str)}}

    def posts(d, r):
        l = o.posts({k: v for k, v in d.items() if not k.endswith("'")}, r) or []
        return [Post(f'{p.label}, again', p.out + ' again', p.idx, lambda: ZERO, p.pre) for p in l]
    return Ob(f'again: {o.name}', ['C20'], o.funcs, inputs, run, posts, o.stubs, raises=o.raises, limit=o.limit, bounded=o.bounded, partial=o.partial,
              conformable=False, trusts=o.trusts, atzero=o.atzero)


# ---------------------------------------------------------------- one array, other values
def in_place():
    return [_in_place(cond, order) for cond in (True, False) for order in ('vg', 'gv', 'full', 'nograd')]


def _in_place(cond, order):
    """the objective and the constraint at a vector that is changed between the calls, as an optimiser may do"""
    nh = sym('nh')

    def inputs():
        i = Inputs().real('v', nh).real('u', nh).real('s', nh).real('tok', 3).real('tok2', 3)
        for t in ('1', '2'):
            i.real('l' + t).real('g' + t, nh).real('c' + t, pos=True).real('h' + t, nh)
        return i

    def run(w, d):
        np = w.np
        bvec = d['s'] > 0
        info = w.get(HPI)(n_hp=d['v'].shape[0], bvec_log_optz=bvec)

        def decode(hp_optz_info, hp_vec):
            return d['tok2'].copy() if same(hp_vec, d['u']) else d['tok'].copy()

        def lkd(hp_vals, calc_lkd=True, calc_cond=False, calc_grad=False, lkd_use_adj_mtd=None):
            t = '2' if same(hp_vals, d['tok2']) else '1'
            r = w.get(LKD)(ln_lkd=d['l' + t], ln_lkd_grad=d['g' + t].copy() if calc_grad else None)
            if calc_cond:
                r.cond, r.cond_grad = d['c' + t], d['h' + t].copy() if calc_grad else None
            return r, True
        o = make(w.get(OPT), b_use_cond_cstr=cond, hp_info_optz_lkd=info, _last_hp_vec=None, hp_vec2dataclass=decode, calc_lkd_all=lkd)
        a = d['v'].copy()

        def one():
            if order == 'full':
                v, g, c, h = o.calc_store_likelihood(a)
                r = dict(v=-v, g=-g)
                return dict(r, c=c, h=h) if cond else r
            if order == 'nograd':
                o.calc_store_likelihood(a, calc_grad=False)
            f = [('v', o.return_optz_val), ('g', o.return_optz_grad)] + ([('c', o.return_cond_val), ('h', o.return_cond_grad)] if cond else [])
            try:
                return {k: x(a) for k, x in (f[::-1] if order == 'gv' else f)}
            except TypeError as e:
                raise Broken(f'no derivative: {e}')
        r1 = one()
        r1 = {k: x if k in 'vc' else x.copy() for k, x in r1.items()}
        a[:] = d['u']
        r2 = one()
        r2 = {k: x if k in 'vc' else x.copy() for k, x in r2.items()}
        a[:] = d['v']
        r3 = one()
        return {k + t: x for t, r in (('1', r1), ('2', r2), ('3', r3)) for k, x in r.items()}

    def posts(d, o):
        l = []
        for t in '123':
            k, n, x = fr(nh, 'k'), '2' if t == '2' else '1', 'u' if t == '2' else 'v'

            def chain(f, k=k, x=x):
                return f * ten(S(x, k)) * terms.LN10 if eng.must(RealCond('>', S('s', k))) else f
            l += [Post(f'objective {t}', 'v' + t, (), lambda n=n: -S('l' + n)),
                  Post(f'its derivative {t}', 'g' + t, (k,), lambda n=n, k=k, chain=chain: chain(-S('g' + n, k)))]
            if cond:
                l += [Post(f'constraint {t}', 'c' + t, (), lambda n=n: S('c' + n)),
                      Post(f'its derivative {t}', 'h' + t, (k,), lambda n=n, k=k, chain=chain: chain(S('h' + n, k)))]
        return l
    return Ob(f'objective at a vector that is changed in place{" with a constraint" if cond else ""} {order}', ['C20', 'C09', 'C10'],
              ['OptzLkd.calc_store_likelihood', 'OptzLkd.return_optz_val', 'OptzLkd.return_optz_grad', 'OptzLkd.return_cond_val', 'OptzLkd.return_cond_grad'],
              inputs, run, posts, partial=True)


def obligations():
    return frames() + repeats() + in_place()
