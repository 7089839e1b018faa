"""C04: Gaussian-process marginal likelihood and its gradient."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props.c03 import full_gradient

PROP = Prop('C04', 'GP marginal likelihood is the exact Gaussian log density', [
    'The Cholesky path adds 1e-7 inside the logarithm of the factor diagonal; the comparison '
    'allows exactly that perturbation plus round-off scaled by the condition number.',
    'The signal gradient may contain the diagonal jitter (pinned by existing unit tests).',
])


@g.strat
def gen(draw):
    is_set = g.chance(draw, 15)
    d = g.size(draw, 4, 8, 20)
    if is_set:
        n, m = g.size(draw, 5, 9, 20), g.size(draw, 3, 4, 12)
        flat = g.points(draw, n * m, d)
        X = [flat[i * m:(i + 1) * m] for i in range(n)]
    else:
        n = g.size(draw, 8, 40, 260, p_big=2)
        X = g.points(draw, n, d)
    return {'cov': g.pick(draw, *(g.COV_SET if is_set else g.COV_BASE)), 'X': X,
            'Y': g.responses(draw, n), 'h': g.hyps(draw, d, extreme=True, signed=True, low_noise=1e-4,
                                                   neg_noise=True, noise=(1e-2, 2.0),
                                                   signal=(0.1, 20.0), ls=(0.05, 50.0)),
            'fix_noise': g.chance(draw, 50), 'prior': g.prior(draw),
            'int_y': g.chance(draw, 10), 'seed': draw(st.integers(0, 10**6))}


def setup(c):
    X, Y = g.A(c['X']), g.A(c['Y'])
    if c.get('int_y'):
        Y = np.rint(Y).astype(int)
    h = g.np_hyps(c['h'])
    if c['fix_noise']:
        h['noise'] = 1e-2          # the fixed noise level of the library
    vec = ([] if c['fix_noise'] else [h['noise']])
    if 'dof' in h:
        vec.append(h['dof'])
    vec += [h['signal']] + list(np.atleast_1d(h['lengthscales']))
    return X, Y, h, np.array(vec), isinstance(h['lengthscales'], np.ndarray)


def nll(K, y):
    n = len(y)
    sign, logdet = np.linalg.slogdet(K)
    a = ref.solve(K, y)
    return float((0.5 * y.T @ a)[0, 0] + 0.5 * logdet + 0.5 * n * np.log(2 * np.pi)) / n, a


def value_tol(K, y, a):
    kappa = ref.cond(K)
    n = len(y)
    quad = float(np.abs(y.T @ a)[0, 0]) / n
    return 1e-8 + 1e-9 * quad + 500 * ref.EPS * kappa * (quad + 1.0), kappa


@PROP.sub(gen, 8000, 120000, lambda c: len(c['X']) > 1, 'more than one observation')
def value(c):
    from bayeso.gp import gp_likelihood
    X, Y, h, vec, ard = setup(c)
    pm = g.prior_vals(c['prior'], X)
    K = ref.train_cov(c['cov'], X, h)
    y = Y - pm
    want, a = nll(K, y)
    tol, _ = value_tol(K, y, a)
    kw = dict(use_ard=ard, fix_noise=c['fix_noise'], use_gradient=False)
    ch = ref.out(call(gp_likelihood.neg_log_ml, X, Y, vec, c['cov'], pm, use_cholesky=True, **kw),
                 (), 'negative log marginal likelihood (Cholesky)')
    minl = np.min(np.diag(np.linalg.cholesky(K)))
    ref.close(ch, want, tol + 2e-7 / minl, 'negative log marginal likelihood (Cholesky)')
    di = ref.out(call(gp_likelihood.neg_log_ml, X, Y, vec, c['cov'], pm, use_cholesky=False, **kw),
                 (), 'negative log marginal likelihood (direct)')
    ref.close(di, want, tol, 'negative log marginal likelihood (direct)')
    p = np.random.RandomState(c['seed']).permutation(len(X))
    pe = ref.out(call(gp_likelihood.neg_log_ml, X[p], Y[p], vec, c['cov'], pm[p], **kw),
                 (), 'negative log marginal likelihood (reordered)')
    ref.close(pe, ch, 2 * tol + 4e-7 / minl, 'negative log marginal likelihood after reordering the data')
    return {'labels': [c['cov'], c['prior'], 'fix' if c['fix_noise'] else 'free',
                       'ard' if ard else 'shared']}


def grad_rule(c):
    return len(c['X']) > 1 and not c['cov'].startswith('set_')


@PROP.sub(gen, 6000, 100000, grad_rule, 'more than one observation, vector inputs')
def gradient(c):
    from bayeso.gp import gp_likelihood
    X, Y, h, vec, ard = setup(c)
    if c['cov'].startswith('set_'):
        return None
    pm = g.prior_vals(c['prior'], X)
    n = len(X)
    K = ref.train_cov(c['cov'], X, h)
    y = Y - pm
    want, a = nll(K, y)
    res = call(gp_likelihood.neg_log_ml, X, Y, vec, c['cov'], pm, use_ard=ard,
               fix_noise=c['fix_noise'], use_cholesky=True, use_gradient=True)
    ensure(isinstance(res, tuple) and len(res) == 2, 'expected (value, gradient)')
    val = ref.out(res[0], (), 'value returned with the gradient')
    grad = ref.out(res[1], vec.shape, 'gradient of the likelihood')
    tol, kappa = value_tol(K, y, a)
    minl = np.min(np.diag(np.linalg.cholesky(K)))
    ref.close(val, want, tol + 2e-7 / minl, 'value returned together with the gradient')
    dK = full_gradient(c['cov'], X, h, c['fix_noise'])
    M = a @ a.T - ref.solve(K, np.eye(n))
    gref = -0.5 * np.einsum('ij,ijk->k', M, dK) / n
    mag = 0.5 * np.einsum('ij,ijk->k', np.abs(M), np.abs(dK)) / n
    big = np.max(np.abs(X / h['lengthscales'])) + 1
    gtol = (1e-8 + 2e3 * ref.EPS * kappa + 1e3 * ref.EPS * big) * (mag + 1e-6)
    sig = 0 if c['fix_noise'] else 1
    gtol = np.array(gtol)
    gtol[sig] += 1.01 * abs(np.trace(M)) * 1e-5 / abs(h['signal']) / n
    ref.close(grad, gref, gtol, 'gradient of the negative log marginal likelihood')

PROP.sub(g.huge(gen, 4), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='value_huge')(value)

PROP.sub(g.huge(gen, 3), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='gradient_huge')(gradient)

PROP.sub(g.related(gen), 500, 6000, None, 'the second call differs from the first',
         name='value_again')(g.each(value))
PROP.sub(g.related(gen), 300, 3600, None, 'the second call differs from the first',
         name='gradient_again')(g.each(gradient))
