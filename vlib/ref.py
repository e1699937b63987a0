"""Executable specification (oracle) of the mathematics gpgradpy promises.

Everything here is written from the definitions of the three covariance
functions and of Gaussian-process regression, not from the code in /repo.  All
functions accept complex hyperparameters / points, so a derivative with respect
to any of them is available to machine precision by the complex-step rule.
"""
import numpy as np

KERNELS = ('SqExp', 'Ma5f2', 'RatQu')


def phi(kernel, s, alpha=None):
    """k as a function of s = sum_d theta_d r_d**2, and its first three s-derivatives."""
    s = np.asarray(s)
    if kernel == 'SqExp':
        e = np.exp(-s)
        return e, -e, e, -e
    if kernel == 'Ma5f2':
        nu = np.sqrt(s + 0j) if np.iscomplexobj(s) else np.sqrt(s)
        r5 = np.sqrt(5.0)
        e = np.exp(-r5 * nu)
        safe = np.where(nu == 0, 1.0, nu)
        return ((1 + r5 * nu + (5.0 / 3.0) * s) * e,
                -(5.0 / 6.0) * (1 + r5 * nu) * e,
                (25.0 / 12.0) * e,
                np.where(nu == 0, 0.0, -(25.0 * r5 / 24.0) * e / safe))
    if kernel == 'RatQu':
        b = 1 + s / alpha
        return (b ** (-alpha), -b ** (-alpha - 1),
                (1 + 1 / alpha) * b ** (-alpha - 2),
                -(1 + 1 / alpha) * (1 + 2 / alpha) * b ** (-alpha - 3))
    raise ValueError(kernel)


def diffs(X1, X2):
    return np.transpose(X1[:, None, :] - X2[None, :, :], (2, 0, 1))


def kern_base(kernel, R, theta, alpha=None):
    s = np.einsum('d,dij->ij', theta, R ** 2)
    return phi(kernel, s, alpha)[0]


def kern_grad(kernel, R, theta, alpha=None, m1=None, m2=None):
    """[ k  dk/dx2 ; dk/dx1  d2k/dx1dx2 ], rows: values then, for each direction, the
    points (of m1) in order."""
    dim, n1, n2 = R.shape
    s = np.einsum('d,dij->ij', theta, R ** 2)
    f0, f1, f2, _ = phi(kernel, s, alpha)
    m1 = np.ones(n1, bool) if m1 is None else np.asarray(m1)
    m2 = np.ones(n2, bool) if m2 is None else np.asarray(m2)
    d1 = [2 * theta[i] * R[i] * f1 for i in range(dim)]            # dk/dx1_i
    top = np.hstack([f0] + [-d1[j][:, m2] for j in range(dim)])
    rows = [top]
    for i in range(dim):
        blk = [d1[i][m1, :]]
        for j in range(dim):
            h = 4 * theta[i] * theta[j] * R[i] * R[j] * f2 + (2 * theta[i] * f1 if i == j else 0)
            blk.append((-h)[m1][:, m2])
        rows.append(np.hstack(blk))
    return np.vstack(rows)


def kern_base_hess_x(kernel, R, theta, alpha=None):
    """out[k, i*n1+p, q] = d2 k(x_p, y_q) / dx_k dx_i."""
    dim, n1, n2 = R.shape
    s = np.einsum('d,dij->ij', theta, R ** 2)
    _, f1, f2, _ = phi(kernel, s, alpha)
    out = np.zeros((dim, dim * n1, n2), dtype=f1.dtype)
    for k in range(dim):
        for i in range(dim):
            out[k, i * n1:(i + 1) * n1] = (4 * theta[i] * theta[k] * R[i] * R[k] * f2
                                           + (2 * theta[i] * f1 if i == k else 0))
    return out


def kern_grad_grad_x(kernel, R, theta, alpha=None, m2=None):
    """out[k, i*n1+p, :] = d2/dx_k dx_i of the row [k, dk/dy_1, ..] at (x_p, .)."""
    dim, n1, n2 = R.shape
    s = np.einsum('d,dij->ij', theta, R ** 2)
    _, f1, f2, f3 = phi(kernel, s, alpha)
    m2 = np.ones(n2, bool) if m2 is None else np.asarray(m2)
    base = kern_base_hess_x(kernel, R, theta, alpha)
    out = np.zeros((dim, dim * n1, n2 + dim * int(m2.sum())), dtype=base.dtype)
    out[:, :, :n2] = base
    g = int(m2.sum())
    for k in range(dim):
        for i in range(dim):
            for j in range(dim):
                t3 = 8 * theta[i] * theta[j] * theta[k] * R[i] * R[j] * R[k] * f3
                t2 = 4 * f2 * ((theta[i] * theta[j] * R[j] if i == k else 0)
                               + (theta[i] * theta[j] * R[i] if j == k else 0)
                               + (theta[i] * theta[k] * R[k] if i == j else 0))
                out[k, i * n1:(i + 1) * n1, n2 + j * g:n2 + (j + 1) * g] = -(t3 + t2)[:, m2]
    return out


H = 1e-30


def cstep(f, vec):
    """Jacobian of a real-analytic f by the complex-step rule; first axis = component of vec."""
    vec = np.asarray(vec, dtype=float)
    out = []
    for i in range(vec.size):
        v = vec.astype(complex)
        v[i] += 1j * H
        out.append(np.imag(np.asarray(f(v))) / H)
    return np.array(out)


def kern_diag(kernel, theta, n_eval, n_grad):
    """Diagonal of the gradient-enhanced kernel matrix: 1 and -k''(0) = -2 theta phi'(0)."""
    f1 = phi(kernel, np.zeros(1), 1.0)[1][0]
    return np.hstack([np.ones(n_eval)] + [np.full(n_grad, -2 * t * f1) for t in theta])


def ldl_logdet_solve(A, B=None):
    """log det and solve for a (complex) symmetric positive matrix, no pivoting, analytic."""
    A = np.array(A, dtype=complex if np.iscomplexobj(A) else float)
    n = A.shape[0]
    L = np.eye(n, dtype=A.dtype)
    D = np.zeros(n, dtype=A.dtype)
    for j in range(n):
        D[j] = A[j, j] - np.sum(L[j, :j] ** 2 * D[:j])
        if j + 1 < n:
            L[j + 1:, j] = (A[j + 1:, j] - (L[j + 1:, :j] * L[j, :j]) @ D[:j]) / D[j]
    return np.sum(np.log(D))


def relerr(a, b, floor=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return 0.0 if np.array_equal(a, b, equal_nan=True) else np.inf
    return float(np.max(np.abs(a - b)) / max(np.max(np.abs(b)), floor, 1e-300))


def maxerr_entry(a, b):
    """Largest entrywise discrepancy, each relative to its own magnitude plus a small floor."""
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.inf, None
    if a.size == 0:
        return 0.0, None
    fl = 1e-7 * max(np.max(np.abs(np.where(np.isfinite(b), b, 0))), 1e-300)
    e = np.abs(a - b) / (np.abs(b) + fl)
    e = np.where(np.isfinite(e), e, np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0.0, np.inf))
    k = np.unravel_index(np.argmax(e), e.shape)
    return float(e[k]), tuple(int(t) for t in k)
