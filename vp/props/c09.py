"""C09: function draws have the requested shape and joint distribution."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call

PROP = Prop('C09', 'Function draws follow the requested joint distribution', [
    'Statistical comparisons use tests calibrated to one false alarm in 1e9 per statistic, with '
    'every generator of the process seeded from the case, so a passing case stays passing.',
])
P_MIN = 1e-9


def covariance_of(draw, n):
    style = g.pick(draw, 'random', 'random', 'kernel', 'diag', 'lowrank')
    r = g.rnd(draw)
    if style == 'diag':
        S = np.diag(10.0 ** r.uniform(-3, 3, size=n))
    elif style == 'kernel':
        x = np.sort(r.rand(n, 1) * 3, axis=0)
        S = ref.base_kernel('matern52', x, x, 1.0, 1.5) + 1e-3 * np.eye(n)
    elif style == 'lowrank':
        B = r.randn(n, max(1, n // 2))
        S = B @ B.T + 1e-6 * np.eye(n)
    else:
        B = r.randn(n, n)
        S = B @ B.T + 0.05 * np.eye(n)
        S *= 10.0 ** r.randint(-2, 3)
    return S.tolist()


@g.strat
def gen_shape(draw):
    n = g.size(draw, 6, 40, 150)
    r = g.rnd(draw)
    return {'mu': (r.randn(n) * 10.0 ** r.randint(-2, 3)).round(4).tolist(),
            'S': covariance_of(draw, n), 'k': g.size(draw, 5, 60, 300),
            'nu': g.pick(draw, 2.5, 3.0, 10.0, 200.0, float('inf'), 1.0)}


@PROP.sub(gen_shape, 2400, 30000, lambda c: len(c['mu']) > 1 or c['k'] > 1, 'more than one value')
def shape(c):
    """Shape, finiteness, closeness to the mean, different rows for repeated draws."""
    from bayeso.gp import gp
    from bayeso.tp import tp
    mu, S, k = g.A(c['mu']), g.A(c['S']), c['k']
    n = len(mu)
    L = np.linalg.cholesky(S + 1e-12 * np.trace(S) * np.eye(n))
    for name, fn in (('gp', lambda: gp.sample_functions(mu, S, num_samples=k)),
                     ('tp', lambda: tp.sample_functions(float(c['nu']), mu, S, num_samples=k))):
        out = ref.out(call(fn), (k, n), name + ' draws')
        w = np.linalg.solve(L, (out - mu).T)
        m2 = np.max(np.sum(w ** 2, axis=0))
        if name == 'gp' or c['nu'] == float('inf'):
            lim = ss.chi2.isf(1e-12 / k, n)
        else:
            lim = n * ss.f.isf(1e-12 / k, n, c['nu'])
        if not m2 <= lim * 1.01 + 1e-6:
            ref.close(m2, 0.0, lim, name + ': squared Mahalanobis distance of a draw')
        if k > 1:
            from vp.core import ensure
            ensure(len({tuple(row) for row in out.tolist()}) == k,
                   '%s: %d draws are not distinct', name, k)
    from vp.core import ensure
    one = ref.out(call(gp.sample_functions, mu, S), (1, n), 'default number of draws')
    one = ref.out(call(tp.sample_functions, float(c['nu']), mu, S), (1, n),
                  'default number of draws')
    ensure(one is not None, '')


@g.strat
def gen_dist(draw):
    n = g.size(draw, 4, 7)
    r = g.rnd(draw)
    return {'mu': (r.randn(n) * 10.0 ** r.randint(-2, 3)).round(4).tolist(),
            'S': covariance_of(draw, n), 'seed': draw(st.integers(0, 2**31 - 1)),
            'nu': g.pick(draw, 3.0, 2.5, 5.0, 12.0, 50.0, float('inf'))}


def normal_stats(z, name):
    """z: (k, n) values that should be iid standard normal."""
    k, n = z.shape
    t = np.abs(z.sum(axis=0)) / np.sqrt(k)
    ref.close(t, 0.0, ss.norm.isf(P_MIN / 2 / n), name + ': standardised mean')
    for i in range(n):
        s = float(np.sum(z[:, i] ** 2))
        lo, hi = ss.chi2.ppf(P_MIN / n, k), ss.chi2.isf(P_MIN / n, k)
        ref.close(s, (lo + hi) / 2, (hi - lo) / 2, name + ': whitened variance')
    C = z.T @ z / np.sqrt(k)
    off = np.abs(C - np.diag(np.diag(C)))
    ref.close(off, 0.0, ss.norm.isf(P_MIN / 2 / n**2) * 1.3, name + ': whitened correlations')
    # successive draws are independent
    if k > 2:
        ref.close(np.abs(np.sum(z[1:] * z[:-1], axis=0)) / np.sqrt(k), 0.0,
                  ss.norm.isf(P_MIN / 2 / n) * 1.3, name + ': successive draws')
    for i in range(n):
        p = ss.kstest(z[:, i], 'norm').pvalue
        ref.close(min(p, P_MIN), P_MIN, 0.999 * P_MIN, name + ': normality (p-value)')


@PROP.sub(gen_dist, 160, 3000, lambda c: len(c['mu']) > 1, 'more than one function value')
def distribution(c):
    from bayeso.gp import gp
    from bayeso.tp import tp
    mu, S, nu = g.A(c['mu']), g.A(c['S']), float(c['nu'])
    n, k = len(mu), 1500
    L = np.linalg.cholesky(S)
    np.random.seed(c['seed'])
    z = np.linalg.solve(L, (ref.out(call(gp.sample_functions, mu, S, num_samples=k), (k, n),
                                    'gp draws') - mu).T).T
    normal_stats(z, 'gp draws')
    np.random.seed(c['seed'] ^ 77)
    t = ref.out(call(tp.sample_functions, nu, mu, S, num_samples=k), (k, n), 'tp draws')
    w = np.linalg.solve(L, (t - mu).T).T
    if nu == float('inf'):
        normal_stats(w, 'tp draws with infinite degrees of freedom')
    else:
        m2 = np.sum(w ** 2, axis=1) / n
        p = ss.kstest(m2, ss.f(n, nu).cdf).pvalue
        ref.close(min(p, P_MIN), P_MIN, 0.999 * P_MIN,
                  f'tp draws: Mahalanobis distances against F({n},{nu}) (p-value)')
        for i in range(n):
            p = ss.kstest(w[:, i], ss.t(nu).cdf).pvalue
            ref.close(min(p, P_MIN), P_MIN, 0.999 * P_MIN, 'tp draws: marginal t (p-value)')
        # directions are uniform on the sphere and independent of the radius
        u = w / np.linalg.norm(w, axis=1, keepdims=True)
        ref.close(np.abs(u.sum(axis=0)) * np.sqrt(n / k), 0.0, ss.norm.isf(P_MIN) * 1.1,
                  'tp draws: direction mean')
        if n > 1:
            C = (u.T @ u) * n / np.sqrt(k)
            off = np.abs(C - np.diag(np.diag(C)))
            ref.close(off, 0.0, ss.norm.isf(P_MIN) * 1.3, 'tp draws: direction correlation')
    return {'labels': [f'nu={nu}']}


@g.strat
def gen_tail(draw):
    n = g.pick(draw, 1, 1, 2, 3)
    r = g.rnd(draw)
    return {'mu': (r.randn(n) * 10.0 ** r.randint(-1, 2)).round(4).tolist(),
            'S': covariance_of(draw, n), 'seed': draw(st.integers(0, 2**31 - 1)),
            'nu': g.pick(draw, 2.001, 2.1, 2.5, 3.0, 5.0, 12.0, 50.0, 1.0)}


@PROP.sub(gen_tail, 24, 400, None, 'every case compares the tails of thirty thousand draws')
def tails(c):
    """Extreme draws are as frequent as the distribution says."""
    from bayeso.gp import gp
    from bayeso.tp import tp
    mu, S, nu = g.A(c['mu']), g.A(c['S']), float(c['nu'])
    n, k = len(mu), 30000
    L = np.linalg.cholesky(S)
    for name, fn, law in (
            ('gp', lambda: gp.sample_functions(mu, S, num_samples=k), ss.chi2(n)),
            ('tp', lambda: tp.sample_functions(nu, mu, S, num_samples=k), ss.f(n, nu))):
        np.random.seed(c['seed'])
        z = np.linalg.solve(L, (ref.out(call(fn), (k, n), name + ' draws') - mu).T)
        m2 = np.sum(z ** 2, axis=0) / (1 if name == 'gp' else n)
        for p in (0.03, 0.01, 3e-3, 1e-3):
            for side, cnt in (('above', np.sum(m2 > law.isf(p))), ('below', np.sum(m2 < law.ppf(p)))):
                lo = ss.binom.ppf(P_MIN, k, p)
                hi = ss.binom.isf(P_MIN, k, p)
                ref.close(float(cnt), (lo + hi) / 2, (hi - lo) / 2 + 1,
                          f'{name}: draws {side} the {p} quantile')
    return {'labels': [f'nu={nu}']}


PROP.sub(g.huge(gen_shape, 4), 40, 400, None, 'one size of the case is beyond its ordinary maximum',
         name='shape_huge')(shape)
