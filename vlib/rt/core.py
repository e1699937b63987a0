"""Shared pieces of the runtime replay: random configurations of the real library, comparison
helpers and an independent reference model of the Gaussian process (built on vlib.ref)."""
import contextlib
import io
import os
import warnings

import numpy as np

from .. import ref
from ..names import unknown

REPO = os.environ.get('VERIF_REPO', '/repo')

KERNELS = ref.KERNELS


class Fail(Exception):
    """The real code broke the property on this input."""


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def show(v, lim=12):
    with np.printoptions(precision=17, threshold=64):
        s = repr(np.asarray(v).tolist()) if isinstance(v, np.ndarray) and v.size <= 40 else repr(v)
    return s if len(s) < 600 else s[:600] + '..'


def same(name, got, want, tol=1e-9, floor=0.0):
    """Entries agree to tol relative to the largest wanted magnitude (or floor)."""
    if got is None:
        raise Fail(f'{name}: nothing was returned')
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Fail(f'{name}: shape {got.shape}, wanted {want.shape}')
    if got.size == 0:
        return
    if np.iscomplexobj(got):
        if np.max(np.abs(got.imag)) > tol * max(np.max(np.abs(want)), 1e-300):
            raise Fail(f'{name}: complex values')
        got = got.real
    nan_g, nan_w = ~np.isfinite(got), ~np.isfinite(want)
    if np.any(nan_g != nan_w):
        k = tuple(int(t) for t in np.argwhere(nan_g != nan_w)[0])
        raise Fail(f'{name}: entry {k} is {got[k]}, wanted {want[k]}')
    if np.all(nan_w):
        return
    g, w = got[~nan_w], want[~nan_w]
    sc = max(float(np.max(np.abs(w))), floor, 1e-300)
    e = np.abs(g - w)
    if np.max(e) > tol * sc:
        k = np.argmax(np.where(nan_w, 0, np.abs(np.where(nan_w, 0, got) - np.where(nan_w, 0, want))))
        k = tuple(int(t) for t in np.unravel_index(k, got.shape))
        raise Fail(f'{name}: entry {k} is {got[k]!r}, wanted {want[k]!r} (tolerance {tol:g} relative to {sc:g})')


def same_entry(name, got, want, tol=1e-9):
    """Entrywise relative agreement (with a small floor)."""
    if got is None:
        raise Fail(f'{name}: nothing was returned')
    got = np.asarray(got); want = np.asarray(want)
    if got.shape != want.shape:
        raise Fail(f'{name}: shape {got.shape}, wanted {want.shape}')
    e, k = ref.maxerr_entry(got, want)
    if e > tol:
        raise Fail(f'{name}: entry {k} is {got[k]!r}, wanted {want[k]!r}')


def identical(name, got, want):
    got = np.asarray(got); want = np.asarray(want)
    if got.shape != want.shape or not np.array_equal(got, want, equal_nan=got.dtype.kind in 'fc'):
        raise Fail(f'{name}: {show(got)}, wanted {show(want)}')


def must_raise(name, f):
    try:
        with quiet():
            f()
    except Exception:
        return
    raise Fail(f'{name}: was accepted')


def call(name, f, *a, **k):
    """Run the real code; an exception on an admissible input is a failure of the property."""
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(*a, **k)
    except Fail:
        raise
    except Exception as e:
        if unknown(e, REPO):
            raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Fail(f'{name} raised {type(e).__name__}: {str(e)[:300]} '
                   f'({os.path.basename(tb.filename)}:{tb.name})')


def rmask(rng, n, kind):
    if kind == 'none':
        return None
    if kind == 'all':
        return np.ones(n, bool)
    if kind == 'empty':
        return np.zeros(n, bool)
    if kind == 'first':
        m = np.zeros(n, bool); m[0] = True; return m
    if kind == 'last':
        m = np.zeros(n, bool); m[-1] = True; return m
    m = rng.random(n) < 0.5
    if n > 1 and (m.all() or not m.any()):
        m[rng.integers(n)] ^= True
    return m


MASKS = ('none', 'part', 'all', 'first', 'last', 'part', 'part', 'empty')


def new_gp(dim, use_grad, kernel, wellcond='precon', **opts):
    from gpgradpy.src import GaussianProcess
    g = GaussianProcess(dim, use_grad, kernel, wellcond)
    for k, v in opts.items():
        setattr(g, k, v)
    return g


def spread_points(rng, n, dim, sep=0.35, scale=1.0):
    """Points that keep a minimum distance from each other (well-conditioned reference)."""
    for _ in range(200):
        X = rng.uniform(-1, 1, (n, dim)) * max(1.0, sep * n ** (1 / dim)) * scale
        if n == 1:
            return X
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)) + np.eye(n) * 9e9
        if D.min() > sep * scale:
            return X
        sep *= 0.97
    return X


class Conf:
    """One random configuration of the real GP with everything the oracles need."""

    def __init__(self, case):
        self.case = case
        rng = self.rng = np.random.default_rng(case['seed'])
        dim = self.dim = case['dim']
        n = self.n = case['n']
        self.use_grad = ug = case['use_grad']
        self.kernel = case['kernel']
        opts = dict(cond_max_target=case.get('kappa', 1e5))
        opts['cond_max'] = case.get('cond_max', 1e12)
        opts.update(case.get('opts', {}))
        self.gp = g = new_gp(dim, ug, self.kernel, case['wellcond'], **opts)
        self.X = spread_points(rng, n, dim, case.get('sep', 0.4), case.get('xscale', 1.0)) + case.get('xoff', 0.0)
        self.mask = rmask(rng, n, case.get('mask', 'none')) if ug else None
        self.m = np.ones(n, bool) if self.mask is None else self.mask
        self.ng = int(self.m.sum()) if ug else 0
        self.f = rng.normal(size=n) * case.get('fscale', 1.0) + case.get('foff', 0.0)
        self.G = rng.normal(size=(self.ng, dim)) * case.get('fscale', 1.0) if ug else None
        nf, ngr = case.get('noise', ('zero', 'zero'))
        self.sf = None if nf == 'unknown' else (np.zeros(n) if nf == 'zero' else rng.uniform(0.05, 0.5, n))
        self.sg = None
        if ug:
            self.sg = None if ngr == 'unknown' else (np.zeros((self.ng, dim)) if ngr == 'zero'
                                                     else rng.uniform(0.05, 0.5, (self.ng, dim)))
        self.noisy = (nf != 'zero') or (ug and (ngr == 'unknown' or (ngr != 'zero' and self.ng > 0)))
        self.set_data()
        th = 10 ** rng.uniform(-0.7, 0.5, dim)
        xs = np.ones(dim) if not g.b_use_data_scl else g.DataScl.xvec_scale
        self.theta = th / xs ** 2 * (1.0 if not g.b_use_data_scl else np.exp(rng.normal(size=dim) * .2) * xs ** 2 * 0.2)
        self.alpha = float(10 ** rng.uniform(-0.5, 0.9)) if self.kernel == 'RatQu' else None
        self.varK = float(10 ** rng.uniform(-1, 1.5))
        self.vf = float(10 ** rng.uniform(-3, -1)) if nf == 'unknown' else None
        self.vg = float(10 ** rng.uniform(-3, -1)) if (ug and ngr == 'unknown') else None
        self.beta = float(rng.normal())

    def set_data(self, g=None):
        g = g or self.gp
        if self.use_grad:
            call('set_data', g.set_data, self.X, self.f, self.sf, self.G, self.sg, self.mask)
        else:
            call('set_data', g.set_data, self.X, self.f, self.sf)

    def hp(self, beta=True, varK=True):
        return self.gp.make_hp_class(np.array([self.beta]) if beta else None, self.theta.copy(),
                                     self.alpha, self.varK if varK else None, self.vf, self.vg)

    # --- what the surrogate works with, recomputed independently -----------------------------
    def scaled(self):
        """Scaled points, function values, gradients and standard deviations."""
        g = self.gp
        if not g.b_use_data_scl:
            return self.X, self.f, self.G, self.sf, self.sg
        xs = g.DataScl.xvec_scale
        sh, so = g.DataScl.x_shift, (g.DataScl.obj_shift, g.DataScl.obj_scale)
        X = (self.X - sh) * xs
        f = (self.f - so[0]) * so[1]
        G = None if self.G is None else self.G / xs * so[1]
        sf = None if self.sf is None else self.sf * so[1]
        sg = None if self.sg is None else self.sg / xs * so[1]
        return X, f, G, sf, sg

    def data_vec(self):
        _, f, G, _, _ = self.scaled()
        return f.copy() if not self.use_grad else np.concatenate([f] + [G[:, j] for j in range(self.dim)])

    def noise(self, vf=None, vg=None):
        _, _, _, sf, sg = self.scaled()
        vf = self.vf if vf is None else vf
        vg = self.vg if vg is None else vg
        a = np.full(self.n, vf) if sf is None else sf ** 2
        if not self.use_grad:
            return a
        b = [np.full(self.ng, vg) if sg is None else sg[:, j] ** 2 for j in range(self.dim)]
        return np.concatenate([a] + b)

    def kern(self, theta=None, alpha=None):
        X = self.scaled()[0]
        R = ref.diffs(X, X)
        th = self.theta if theta is None else theta
        al = self.alpha if alpha is None else alpha
        if self.use_grad:
            return ref.kern_grad(self.kernel, R, th, al, self.m, self.m)
        return ref.kern_base(self.kernel, R, th, al)

    @property
    def precon(self):
        return self.use_grad and self.case['wellcond'] == 'precon'

    def eta(self, Kern=None, noise_ratio=0):
        """Nugget in use (constant, or from the largest absolute row sum when it is varied)."""
        g = self.gp
        if g.cond_eta_is_const:
            return ref_eta(self)
        K = self.kern() if Kern is None else Kern
        if self.precon:
            Kn = K + np.diag(np.broadcast_to(noise_ratio, (K.shape[0],)))
            p = np.sqrt(np.diag(Kn))
            K = Kn / np.outer(p, p)
        i = np.argmax(np.sum(np.abs(np.real(K)), axis=1))      # (complex step through the largest row sum)
        return np.sum(np.sign(np.real(K[i])) * K[i]) / (g.cond_max_target - 1)

    def cov(self, theta=None, alpha=None, varK=None, vf=None, vg=None, eta=None):
        """Covariance matrix (complex-capable); varK = 1 is the regularised kernel matrix."""
        K = self.kern(theta, alpha)
        varK = self.varK if varK is None else varK
        ns = self.noise(vf, vg) if self.noisy else np.zeros(K.shape[0])
        if eta is None:
            eta = self.eta(K, ns / varK)
        Kn = K + np.diag(ns / varK)
        return varK * (Kn + eta * (np.diag(np.diag(Kn)) if self.precon else np.eye(K.shape[0])))


def ref_eta(c):
    """The nugget each method prescribes, from the published formulas."""
    g, n, d, kap = c.gp, c.n, c.dim, c.gp.cond_max_target
    if g.cond_eta_set_mtd == 'dflt_eta':
        return g.cond_eta_dflt
    base = n / (kap - 1)
    if not c.use_grad or n == 1:
        return base
    wc = c.case['wellcond']
    if wc == 'precon':
        return (1 + offdiag_bound(c.kernel, n, d)) / (kap - 1)
    if wc.startswith('rescale'):
        v = vreq(n, d)
        vf = 2 * np.sqrt(d) / v
        return (1 + (n - 1) * vf * np.exp(1 / vf - 1)) / (kap - 1)
    return base * ((d + 1) if g.cond_eta_set_mtd == 'Kbase_eta_w_dim' else 1)


def offdiag_bound(kernel, n, d):
    """(n-1) * max over v of the bound on one point's contribution to an absolute row sum."""
    if kernel in ('SqExp', 'RatQu'):
        v = (-1 + np.sqrt(1 + 4 * d)) / (2 * np.sqrt(d))
        return (n - 1) * (1 + np.sqrt(d) * v) * np.exp(-v ** 2 / 2)
    s = np.sqrt(3 * d)
    a = (s - 1 + np.sqrt(15 * d + 2 * s + 1)) / (2 * (3 * d + s))
    return (n - 1) * (1 + (d + s) * a + d * (1 + s) * a ** 2) * np.exp(-s * a)


def vreq(n, d):
    if n == 1:
        return 1.0
    ds = 2 * np.sqrt(d)
    return min((2 + np.sqrt(4 + 2 * np.exp(2) * np.log((n - 1) * (1 + ds) / 2))) / np.e, ds)


WELLCONDS = ('precon', 'base', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax')


def gen_conf(rng, k, wellconds=WELLCONDS, noise=True, masks=True, dims=(1, 2, 3, 4), nmax=6, grads=(True, True, False)):
    ug = bool(grads[k % len(grads)]) if k % 7 else bool(rng.choice(grads))
    wc = str(wellconds[(k // 2) % len(wellconds)]) if k % 5 else str(rng.choice(wellconds))
    kinds = ('zero', 'known', 'unknown')
    if noise and k % 3:
        nz = (str(rng.choice(kinds)), str(rng.choice(kinds)))
    else:
        nz = ('zero', 'zero')
    # gradient data of a rescaled GP with a subset of the gradients is allowed
    return dict(seed=int(rng.integers(2 ** 31)), dim=int(rng.choice(dims)), n=int(rng.choice(range(1, nmax + 1), p=None)),
                use_grad=ug, kernel=str(KERNELS[k % 3]), wellcond=wc, noise=nz,
                mask=str(rng.choice(MASKS)) if masks else 'none',
                xoff=float(rng.choice([0, 0, 3.0])), foff=float(rng.choice([0, 5.0])),
                fscale=float(rng.choice([1.0, 0.1, 20.0])), xscale=float(rng.choice([1.0, 1.0, 0.3, 4.0])),
                kappa=float(rng.choice([1e3, 1e5, 1e7])))
