"""C11: hyperparameter fitting returns a consistent model that is no worse than its start."""
import numpy as np
import scipy.optimize as so
import scipy.special as sp
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props.c03 import full_gradient
from vp.props.c10 import RANGE

PROP = Prop('C11', 'Fitted hyperparameters are consistent, in range and no worse than the start', [
    'Responses have moderate scale (the optimisation loop normalises them); unbounded methods '
    'on raw responses of scale 1e6 can leave the numerically positive-definite range.',
    'Attained criterion values are compared with those of the same scipy optimiser run on an '
    'independently written criterion, with an allowance for different stopping points.',
])
DESCENT = ('BFGS', 'L-BFGS-B', 'Nelder-Mead')
GP_OPT = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded']


@g.strat
def gen(draw):
    tp = g.chance(draw, 35)
    is_set = g.chance(draw, 15)
    d = g.size(draw, 3, 6, 10)
    n = g.size(draw, 8, 16, 50, low=1)
    r = g.rnd(draw)
    if is_set:
        m = g.size(draw, 3, 8, 16, p_mid=25, p_big=5)
        X = (r.rand(n, m, d) * 3).round(3).tolist()
    else:
        X = g.points(draw, n, d, spread=2.0) if g.chance(draw, 50) else \
            (r.rand(n, d) * 3).round(3).tolist()
    smooth = g.chance(draw, 55)
    if smooth:
        Z = np.array(X).reshape(n, -1)
        Y = (np.sin(Z[:, :1] * 2) + 0.3 * Z.sum(axis=1, keepdims=True) + 0.05 * r.randn(n, 1))
        Y = (Y * g.pick(draw, 1.0, 3.0)).round(4).tolist()
    else:
        Y = g.responses(draw, n, scale=False)
    # unbounded fits to unrelated responses can diverge over large, similar sets
    opts = GP_OPT if not is_set or m < 4 else ['L-BFGS-B', 'SLSQP-Bounded']
    return {'tp': tp, 'cov': g.pick(draw, *(g.COV_SET if is_set else g.COV_BASE)), 'X': X, 'Y': Y,
            'opt': g.pick(draw, 'SLSQP', 'L-BFGS-B') if tp else g.pick(draw, *opts),
            'crit': 'ml' if tp else g.pick(draw, 'ml', 'ml', 'loocv'),
            'ard': g.chance(draw, 60), 'fix_noise': g.chance(draw, 50), 'prior': g.prior(draw),
            'smooth': smooth}


def unpack(vec, c):
    vec = list(vec)
    h = {'noise': 1e-2 if c['fix_noise'] else vec.pop(0)}
    if c['tp']:
        h['dof'] = vec.pop(0)
    h['signal'] = vec.pop(0)
    h['lengthscales'] = np.array(vec) if c['ard'] else vec[0]
    return h


def criterion(c, X, y, vec, grad=False):
    h = unpack(vec, c)
    n = len(X)
    K = ref.train_cov(c['cov'], X, h)
    try:
        Ki = ref.solve(K, np.eye(n))
    except np.linalg.LinAlgError:
        return (np.inf, np.zeros(len(vec))) if grad else np.inf
    a = Ki @ y
    if c['crit'] == 'loocv':
        v = 1.0 / (np.diag(Ki)[:, None] + 1e-5)
        r = a * v
        # the residual is a_i / [K^-1]_ii
        return float(np.mean(0.5 * np.log(v) + 0.5 * r ** 2 / v + 0.5 * np.log(2 * np.pi)))
    _, logdet = np.linalg.slogdet(K)
    beta = float((y.T @ a)[0, 0])
    if c['tp']:
        nu = h['dof']
        v = 0.5 * n * np.log((nu - 2) * np.pi) + 0.5 * logdet - sp.gammaln((nu + n) / 2) \
            + sp.gammaln(nu / 2) + 0.5 * (nu + n) * np.log1p(beta / (nu - 2))
        return v / n
    v = (0.5 * beta + 0.5 * logdet + 0.5 * n * np.log(2 * np.pi)) / n
    if not grad:
        return v
    dK = full_gradient(c['cov'], X, h, c['fix_noise'])
    return v, -0.5 * np.einsum('ij,ijk->k', a @ a.T - Ki, dK) / n


def bounds(c, k):
    b = ([] if c['fix_noise'] else [RANGE['noise']]) + ([RANGE['dof']] if c['tp'] else []) \
        + [RANGE['signal']]
    return b + [RANGE['ls']] * (k - len(b))


def start(c, d):
    return np.array(([] if c['fix_noise'] else [1e-2]) + ([5.0] if c['tp'] else []) + [1.0]
                    + [1.0] * (d if c['ard'] else 1))


def reference_fit(c, X, y, d):
    x0 = start(c, d)
    jac = not c['tp'] and c['crit'] == 'ml' and c['opt'] != 'Nelder-Mead' \
        and not c['cov'].startswith('set_')
    method = 'SLSQP' if c['opt'] == 'SLSQP-Bounded' else c['opt']
    kw = {}
    if c['tp'] or c['opt'] in ('L-BFGS-B', 'SLSQP-Bounded'):
        kw['bounds'] = bounds(c, len(x0))
    if c['opt'] != 'Nelder-Mead':
        kw['jac'] = jac
    res = so.minimize(lambda v: criterion(c, X, y, v, jac), x0, method=method, **kw)
    return criterion(c, X, y, res.x)


@PROP.sub(gen, 1200, 20000, lambda c: len(c['X']) > 2, 'at least three observations')
def fit(c):
    from bayeso.gp import gp_kernel
    from bayeso.tp import tp_kernel
    X, Y = g.A(c['X']), g.A(c['Y'])
    n, d = len(X), X.shape[-1]
    y = Y - g.prior_vals(c['prior'], X)
    f = g.prior_fn(c['prior'])
    if c['tp']:
        fn = tp_kernel.get_optimized_kernel
        kw = {}
    else:
        fn = gp_kernel.get_optimized_kernel
        kw = {'str_modelselection_method': c['crit']}
    bounded = c['tp'] or c['opt'] in ('L-BFGS-B', 'SLSQP-Bounded')
    res = call(fn, X, Y, f, c['cov'], str_optimizer_method=c['opt'], use_ard=c['ard'],
               fix_noise=c['fix_noise'], **kw)
    ensure(isinstance(res, tuple) and len(res) == 3, 'expected (covariance, inverse, dictionary)')
    h = res[2]
    ensure(isinstance(h, dict), 'hyperparameters are %s', type(h).__name__)
    keys = {'noise', 'signal', 'lengthscales'} | ({'dof'} if c['tp'] else set())
    ensure(set(h) == keys, 'hyperparameter names %s', sorted(h))
    ls = ref.out(h['lengthscales'], (d,) if c['ard'] else (), 'lengthscales')
    noise, signal = ref.out(h['noise'], (), 'noise'), ref.out(h['signal'], (), 'signal')
    if c['fix_noise']:
        ensure(noise == 1e-2, 'fixed noise became %r', noise)
    vec = ([] if c['fix_noise'] else [float(noise)])
    if c['tp']:
        vec.append(float(ref.out(h['dof'], (), 'degrees of freedom')))
        ensure(vec[-1] > 2, 'degrees of freedom %g', vec[-1])
    vec = np.array(vec + [float(signal)] + list(np.atleast_1d(ls)))
    if bounded:
        for v, (lo, hi) in zip(vec, bounds(c, len(vec))):
            ensure(lo * (1 - 1e-9) <= v <= hi * (1 + 1e-9),
                   'hyperparameter %g outside [%g, %g]', v, lo, hi)
    hh = unpack(vec, c)
    want = ref.train_cov(c['cov'], X, hh)
    s2 = float(signal) ** 2
    big = np.max(np.abs(X / hh['lengthscales'])) + 1
    tol = 1e-10 * s2 + 100 * ref.EPS * s2 * big + 1e-12
    K = ref.out(res[0], (n, n), 'covariance')
    Ki = ref.out(res[1], (n, n), 'inverse')
    ref.close(K, want, tol, 'returned covariance vs returned hyperparameters')
    kappa = ref.cond(want)
    ref.close(K @ Ki, np.eye(n), 1e-9 + 100 * n * ref.EPS * kappa,
              'returned covariance times returned inverse')
    got = criterion(c, X, y, vec)
    c0 = criterion(c, X, y, start(c, d))
    if kappa < 1e11 and c['opt'] in DESCENT:
        ensure(got <= c0 + 1e-6 * (1 + abs(c0)),
               'fitting made the criterion worse: %g at the start, %g at the result', c0, got)
    return {'labels': [c['opt'], c['crit'], c['cov'], 'tp' if c['tp'] else 'gp']}


@g.strat
def gen_battery(draw):
    tp = g.chance(draw, 35)
    is_set = g.chance(draw, 20)
    return {'tp': tp, 'cov': g.pick(draw, *(g.COV_SET if is_set else g.COV_BASE)),
            'opt': g.pick(draw, 'SLSQP', 'L-BFGS-B') if tp else g.pick(draw, *GP_OPT),
            'crit': 'ml' if tp else g.pick(draw, 'ml', 'ml', 'loocv'),
            'ard': g.chance(draw, 60), 'fix_noise': g.chance(draw, 50),
            'prior': g.prior(draw, p_none=40), 'd': g.size(draw, 3),
            'seed': draw(st.integers(0, 2**31 - 1))}


def problem(c, r):
    """A smooth function observed with a little noise: a well-posed fitting problem."""
    d = c['d']
    n = r.randint(8, 15)
    X = r.rand(n, 2, d) * 3 if c['cov'].startswith('set_') else r.rand(n, d) * 3
    Z = X.reshape(n, -1, d).mean(axis=1)
    w = r.uniform(0.5, 1.5, size=(d, 1))
    Y = 1.5 * np.sin(Z @ w + r.rand()) + 0.4 * np.cos(2 * Z[:, :1]) + 0.1 * r.randn(n, 1)
    return X, Y + g.prior_vals(c['prior'], X)


N_BATTERY = 8


@PROP.sub(gen_battery, 64, 2000, None,
          'every case is a battery of eight fitting problems sharing one configuration')
def attained(c):
    """On most well-posed problems the fit reaches the optimum that the same scipy optimiser
    reaches on an independently written criterion."""
    from bayeso.gp import gp_kernel
    from bayeso.tp import tp_kernel
    r = np.random.RandomState(c['seed'])
    f = g.prior_fn(c['prior'])
    fn = tp_kernel.get_optimized_kernel if c['tp'] else gp_kernel.get_optimized_kernel
    kw = {} if c['tp'] else {'str_modelselection_method': c['crit']}
    worse, report = 0, []
    for _ in range(N_BATTERY):
        X, Y = problem(c, r)
        y = Y - g.prior_vals(c['prior'], X)
        h = call(fn, X, Y, f, c['cov'], str_optimizer_method=c['opt'], use_ard=c['ard'],
                 fix_noise=c['fix_noise'], **kw)[2]
        vec = np.array(([] if c['fix_noise'] else [h['noise']]) + ([h['dof']] if c['tp'] else [])
                       + [h['signal']] + list(np.atleast_1d(h['lengthscales'])))
        got = criterion(c, X, y, vec)
        base = reference_fit(c, X, y, c['d'])
        c0 = criterion(c, X, y, start(c, c['d']))
        bad = not got <= base + 0.01 + 0.02 * max(0.0, c0 - base)
        worse += bad
        if bad:
            report.append((round(float(got), 4), round(float(base), 4), round(float(c0), 4)))
    ensure(worse <= ALLOWED_WORSE,
           '%d of %d fits stop short of the optimum the same optimiser reaches (fitted, optimum, '
           'start): %s', worse, N_BATTERY, report)
    return {'labels': [c['opt'], c['crit'], 'tp' if c['tp'] else 'gp', f'short:{worse}'],
            'worse': worse}


ALLOWED_WORSE = 4


@g.strat
def gen_large(draw):
    c = {'tp': g.chance(draw, 35), 'cov': g.pick(draw, *g.COV_BASE)}
    c['opt'] = g.pick(draw, 'SLSQP', 'L-BFGS-B') if c['tp'] else g.pick(draw, *GP_OPT)
    c['crit'] = 'ml' if c['tp'] or g.chance(draw, 80) else 'loocv'
    c.update(ard=g.chance(draw, 60), fix_noise=g.chance(draw, 50), prior=g.prior(draw, p_none=60),
             d=g.size(draw, 2), n=draw(st.integers(30, 70 if c['crit'] == 'loocv' else 160)),
             order=g.pick(draw, 'rough_last', 'rough_first', 'mixed'),
             seed=draw(st.integers(0, 2**31 - 1)))
    return c


@PROP.sub(gen_large, 56, 800, None,
          'every case is a battery of four fits of 30 to 160 observations, most of them flat '
          'over a part of the data and rough over the rest')
def attained_large(c):
    from bayeso.gp import gp_kernel
    from bayeso.tp import tp_kernel
    r = np.random.RandomState(c['seed'])
    f = g.prior_fn(c['prior'])
    fn = tp_kernel.get_optimized_kernel if c['tp'] else gp_kernel.get_optimized_kernel
    kw = {} if c['tp'] else {'str_modelselection_method': c['crit']}
    worse, report = 0, []
    for _ in range(4):
        n = c['n']
        X = r.rand(n, c['d']) * 8
        if c['order'] != 'mixed':
            X = X[np.argsort(X[:, 0])]
        rough = X[:, :1] > 4
        y = np.where(rough, 3 * np.sin(2.5 * X[:, :1]) * np.cos(X.sum(axis=1, keepdims=True)),
                     0.05 * X[:, :1]) + 0.05 * r.randn(n, 1)
        if c['order'] == 'rough_first':
            X, y = X[::-1].copy(), y[::-1].copy()
        Y = y + g.prior_vals(c['prior'], X)
        h = call(fn, X, Y, f, c['cov'], str_optimizer_method=c['opt'], use_ard=c['ard'],
                 fix_noise=c['fix_noise'], **kw)[2]
        vec = np.array(([] if c['fix_noise'] else [h['noise']]) + ([h['dof']] if c['tp'] else [])
                       + [h['signal']] + list(np.atleast_1d(h['lengthscales'])))
        y = Y - g.prior_vals(c['prior'], X)
        got = criterion(c, X, y, vec)
        base = reference_fit(c, X, y, c['d'])
        c0 = criterion(c, X, y, start(c, c['d']))
        bad = not got <= base + 0.02 + 0.05 * max(0.0, c0 - base)
        worse += bad
        if bad:
            report.append((round(float(got), 4), round(float(base), 4), round(float(c0), 4)))
    ensure(worse <= 2, '%d of 4 large fits stop short of the optimum the same optimiser reaches '
           '(fitted, optimum, start): %s', worse, report)
    return {'labels': [c['opt'], c['crit'], c['order'], f'short:{worse}'], 'worse': worse}
