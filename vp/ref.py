"""Independent reference models (direct transcriptions of the textbook formulas)."""
import math

import numpy as np

from vp.core import Violation, ensure

EPS = np.finfo(float).eps
JITTER_COV = 1e-5


def out(x, shape, name, finite=True):
    """Interpret an output of the code under test as a float array of `shape`."""
    ensure(isinstance(x, (np.ndarray, float, int, np.floating, np.integer)),
           '%s is %s, not numeric', name, type(x).__name__)
    a = np.asarray(x)
    ensure(a.dtype.kind in 'fiu', '%s has dtype %s', name, a.dtype)
    a = a.astype(float)
    ensure(a.shape == tuple(shape), '%s has shape %s, expected %s', name, a.shape, tuple(shape))
    if finite:
        ensure(bool(np.all(np.isfinite(a))), '%s is not finite: %s', name, a.ravel()[:5])
    return a


def close(a, b, tol, name, *args):
    """Element-wise |a - b| <= tol (tol scalar or array)."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    diff = np.abs(a - b)
    bad = ~(diff <= tol)
    if np.any(bad):
        i = int(np.argmax(np.where(bad, np.where(np.isnan(diff), np.inf, diff), -1.0)))
        msg = name % args if args else name
        raise Violation(f'{msg}: got {a.ravel()[i]!r}, expected {b.ravel()[i]!r} '
                        f'(difference {diff.ravel()[i]:.3g}, allowed '
                        f'{np.broadcast_to(tol, diff.shape).ravel()[i]:.3g}, flat index {i})')


def base_kernel(name, X, Xp, ls, signal):
    """k(x, x') for one of the four base kernels, element by element."""
    ls = np.asarray(ls, float)
    X = np.asarray(X, float)
    Xp = np.asarray(Xp, float)
    D = (X[:, None, :] - Xp[None, :, :]) / ls
    r = np.sqrt(np.sum(D * D, axis=2))
    if name in ('se', 'eq'):
        K = np.exp(-0.5 * r * r)
    elif name == 'matern32':
        K = (1.0 + math.sqrt(3.0) * r) * np.exp(-math.sqrt(3.0) * r)
    elif name == 'matern52':
        K = (1.0 + math.sqrt(5.0) * r + 5.0 * r * r / 3.0) * np.exp(-math.sqrt(5.0) * r)
    else:
        raise ValueError(name)
    return signal * signal * K


def kernel(name, X, Xp, h):
    if name.startswith('set_'):
        K = np.zeros((len(X), len(Xp)))
        for i, S in enumerate(X):
            for j, T in enumerate(Xp):
                K[i, j] = base_kernel(name[4:], S, T, h['lengthscales'], h['signal']).mean()
        return K
    return base_kernel(name, X, Xp, h['lengthscales'], h['signal'])


def train_cov(name, X, h):
    """Covariance of noisy observations: kernel + 1e-5 I + noise^2 I."""
    n = len(X)
    return kernel(name, X, X, h) + (JITTER_COV + h['noise'] ** 2) * np.eye(n)


def solve(K, B):
    """Cholesky solve with one step of iterative refinement."""
    import scipy.linalg as sl
    c = sl.cho_factor(K, lower=True)
    x = sl.cho_solve(c, B)
    return x + sl.cho_solve(c, B - K @ x)


def cond(K):
    w = np.linalg.eigvalsh(K)
    return float(w[-1] / max(w[0], 1e-300))


def gp_posterior(name, X, Y, Xs, h, m, ms):
    """Exact conditioning of the joint Gaussian; returns (mean, covariance, cond)."""
    K = train_cov(name, X, h)
    Ks = kernel(name, X, Xs, h)
    Kss = kernel(name, Xs, Xs, h) + JITTER_COV * np.eye(len(Xs))
    A = solve(K, np.hstack([Y - m, Ks]))
    mu = Ks.T @ A[:, :1] + ms
    S = Kss - Ks.T @ A[:, 1:]
    return mu, S, K, cond(K)


def post_tol(K, Ks_scale, y_scale, kappa):
    """Round-off allowance for quantities that go through an explicit inverse."""
    return 1e-9 * (1 + y_scale) + 2e3 * EPS * kappa * (y_scale + 1e-30)


def numgrad(f, x, rel=1e-4):
    """Central differences with Richardson extrapolation; returns (grad, error estimate)."""
    x = np.asarray(x, float)
    g = np.zeros(x.size)
    e = np.zeros(x.size)
    for i in range(x.size):
        h = rel * max(abs(x[i]), 1e-3)

        def d(step):
            p = x.copy()
            q = x.copy()
            p[i] += step
            q[i] -= step
            return (f(p) - f(q)) / (p[i] - q[i])
        d1 = d(h)
        d2 = d(h / 2)
        d3 = d(h / 4)
        r1 = (4 * d2 - d1) / 3
        r2 = (4 * d3 - d2) / 3
        g[i] = r2
        e[i] = abs(r2 - r1)
    return g, e
