"""Runtime contracts of the kernel layer: C01-C04."""
import numpy as np

from .. import ref
from .core import KERNELS, Fail, call, new_gp, rmask, same, same_entry

MK = ('none', 'all', 'part', 'first', 'last', 'empty')


def _case(rng, k):
    return dict(seed=int(rng.integers(2 ** 31)), kernel=KERNELS[k % 3], dim=1 + (k // 3) % 5,
                n1=int(rng.integers(1, 6)), n2=int(rng.integers(1, 6)),
                m1=MK[(k // 2) % 6] if k % 4 else str(rng.choice(MK)), m2=str(rng.choice(MK)),
                coin=bool(rng.random() < 0.4), spread=float(rng.choice([0.02, 0.5, 3.0])),
                same=bool(rng.random() < .35))


def _setup(c, square=False):
    rng = np.random.default_rng(c['seed'])
    d, n1, n2 = c['dim'], c['n1'], c['n2']
    X = rng.normal(size=(n1, d)) * c['spread']
    if square or c['same']:
        Y, n2 = X, n1
    else:
        Y = rng.normal(size=(n2, d)) * c['spread']
        if c['coin']:
            Y[rng.integers(n2)] = X[rng.integers(n1)]
    th = 10 ** rng.uniform(-1.5, 1.0, d)
    al = float(10 ** rng.uniform(-1, 1)) if c['kernel'] == 'RatQu' else None
    g = new_gp(d, True, c['kernel'])
    R = call('calc_Rtensor', g.calc_Rtensor, X, Y, 1)
    same('calc_Rtensor', R, ref.diffs(X, Y), 1e-15)
    m1 = rmask(rng, n1, c['m1'])
    m2 = m1 if (square or c['same']) and c['seed'] % 3 else rmask(rng, n2, c['m2'])
    return g, R, th, al, m1, m2


def run_C01(c):
    g, R, th, al, m1, m2 = _setup(c)
    R0, th0 = R.copy(), th.copy()
    k = c['kernel']
    same_entry(f'{k} KernBase', call('KernBase', g.calc_KernBase, R, th, al), ref.kern_base(k, R, th, al), 1e-8)
    for a, b in ((m1, m2), (None, None), (m1, None), (None, m2)):
        same_entry(f'{k} KernGrad masks {None if a is None else a.tolist()}, {None if b is None else b.tolist()}',
                   call('KernGrad', g.calc_KernGrad, R, th, al, a, b), ref.kern_grad(k, R, th, al, a, b), 1e-8)
    gb = new_gp(c['dim'], False, k)
    same_entry(f'{k} kernel of a gradient-free GP', call('Kern', gb.calc_Kern, R, th, al), ref.kern_base(k, R, th, al), 1e-8)
    same_entry(f'{k} kernel of a gradient-enhanced GP', call('Kern', g.calc_Kern, R, th, al, m1, m2),
               ref.kern_grad(k, R, th, al, m1, m2), 1e-8)
    if c['same']:
        K = g.calc_KernGrad(R, th, al, m1, m1)
        same(f'{k} symmetry of the kernel matrix of one set', K, K.T, 1e-12)
        w = np.linalg.eigvalsh(K / np.sqrt(np.outer(np.diag(K), np.diag(K)))) if K.size else np.ones(1)
        if w.min() < -1e-9 * len(w):
            raise Fail(f'{k} kernel matrix of one set of points has the eigenvalue {w.min()}')
    if not (np.array_equal(R, R0) and np.array_equal(th, th0)):
        raise Fail('kernel evaluation modified its arguments')


def run_C02(c):
    g, R, th, al, m1, _ = _setup(c, square=True)
    k = c['kernel']
    gb = new_gp(c['dim'], False, k)
    same_entry(f'{k} d KernBase/d theta', call('grad_th', gb.calc_Kern_grad_theta, R, th, al),
               ref.cstep(lambda t: ref.kern_base(k, R, t, al), th), 1e-7)
    for m in (m1, None, np.ones(R.shape[1], bool)):
        same_entry(f'{k} d KernGrad/d theta mask {None if m is None else m.tolist()}',
                   call('grad_th', g.calc_Kern_grad_theta, R, th, al, m),
                   ref.cstep(lambda t: ref.kern_grad(k, R, t, al, m, m), th), 1e-7)
        if k == 'RatQu':
            same_entry(f'{k} d KernGrad/d alpha mask {None if m is None else m.tolist()}',
                       call('grad_alpha', g.calc_Kern_grad_alpha, R, th, al, m),
                       ref.cstep(lambda t: ref.kern_grad(k, R, th, t[0], m, m), [al]), 1e-6)
    if k == 'RatQu':
        same_entry(f'{k} d KernBase/d alpha', call('grad_alpha', gb.calc_Kern_grad_alpha, R, th, al),
                   ref.cstep(lambda t: ref.kern_base(k, R, th, t[0]), [al]), 1e-6)


def run_C03(c):
    g, R, th, al, m1, m2 = _setup(c)
    k = c['kernel']
    gb = new_gp(c['dim'], False, k)
    same_entry(f'{k} d2 KernBase/dx2', call('hess_x', gb.calc_Kern_hess_x, R, th, al),
               ref.kern_base_hess_x(k, R, th, al), 1e-7)
    for m in (m2, None):
        same_entry(f'{k} d2 KernGrad/dx2 mask {None if m is None else m.tolist()}',
                   call('grad_x', g.calc_Kern_hess_x, R, th, al, m), ref.kern_grad_grad_x(k, R, th, al, m), 1e-7)


def run_C04(c):
    rng = np.random.default_rng(c['seed'])
    d, k = c['dim'], c['kernel']
    g = new_gp(d, True, k)
    th = 10 ** rng.uniform(-6, 6, d)
    ne = c['n1']
    ng = int(rng.integers(0, ne + 1)) if c['seed'] % 2 else ne
    diag = np.sqrt(ref.kern_diag(k, th, ne, ng))
    dd = np.zeros((ne + ng * d, d))
    for i in range(d):
        dd[ne + i * ng: ne + (i + 1) * ng, i] = np.sqrt(-2 * ref.phi(k, np.zeros(1), 1.0)[1][0]) * 0.5 / np.sqrt(th[i])
    p, pi, gp = call('precon', g.calc_Kern_precon, ne, ng, th, calc_grad=True, b_return_vec=True)
    same_entry('preconditioner vector', p, diag, 1e-10)
    same_entry('inverse of the preconditioner', pi, 1 / diag, 1e-10)
    same_entry('derivative of the preconditioner', gp, dd, 1e-10)
    P, Pi, gP = call('precon', g.calc_Kern_precon, ne, ng, th, calc_grad=True, b_return_vec=False)
    same_entry('preconditioner matrix', P, np.diag(diag), 1e-10)
    same_entry('inverse preconditioner matrix', Pi, np.diag(1 / diag), 1e-10)
    same_entry('derivative of the preconditioner matrix', gP, np.array([np.diag(dd[:, i]) for i in range(d)]), 1e-10)
    p2 = call('precon', g.calc_Kern_precon, ne, ng, th, b_return_vec=True)
    same_entry('preconditioner vector', p2[0], diag, 1e-10)
    gam = call('theta2gamma', g.theta2gamma, th)
    same_entry('theta2gamma', gam, np.sqrt(-2 * ref.phi(k, np.zeros(1), 1.0)[1][0] * th), 1e-12)
    same_entry('gamma2theta(theta2gamma(theta))', call('gamma2theta', g.gamma2theta, gam), th, 1e-12)
    same_entry('theta2gamma(gamma2theta(gamma))', g.theta2gamma(g.gamma2theta(th)), th, 1e-12)
    X = rng.normal(size=(ne, d))
    m = np.zeros(ne, bool); m[:ng] = True
    K = call('KernGrad', g.calc_KernGrad, ref.diffs(X, X), th, 1.3 if k == 'RatQu' else None, m, m)
    same_entry('preconditioner squared against the diagonal of the kernel matrix', p ** 2, np.diag(K), 1e-9)


GEN = {p: _case for p in ('C01', 'C02', 'C03', 'C04')}
RUN = dict(C01=run_C01, C02=run_C02, C03=run_C03, C04=run_C04)
