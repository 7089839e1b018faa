"""C06: Student-t process marginal likelihood and its gradient."""
import numpy as np
import scipy.special as sp
import scipy.stats as ss
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Known, Prop, call, ensure
from vp.props import c04
from vp.props.c03 import full_gradient

PROP = Prop('C06', 'Student-t process likelihood is the exact multivariate-t log density', [
    'Degrees of freedom in (2, 200], the range the library optimises over.',
    'The signal gradient may contain the diagonal jitter (as for Gaussian processes).',
])


@g.strat
def gen(draw):
    d = g.size(draw, 4, 8, 20)
    n = g.size(draw, 8, 40, 450, p_big=3)
    is_set = n <= 9 and g.chance(draw, 15)
    if is_set:
        m = g.size(draw, 3, 4)
        flat = g.points(draw, n * m, d)
        X = [flat[i * m:(i + 1) * m] for i in range(n)]
    else:
        X = g.points(draw, n, d)
    return {'cov': g.pick(draw, *(g.COV_SET if is_set else g.COV_BASE)), 'X': X,
            'Y': g.responses(draw, n),
            'h': g.hyps(draw, d, extreme=True, tp=True, signed=True, low_noise=1e-4,
                        neg_noise=True, noise=(1e-2, 2.0), signal=(0.1, 20.0),
                        ls=(0.05, 50.0)),
            'fix_noise': g.chance(draw, 50), 'prior': g.prior(draw),
            'seed': draw(st.integers(0, 10**6))}


def nll(K, y, nu):
    n = len(y)
    a = ref.solve(K, y)
    beta = float((y.T @ a)[0, 0])
    _, logdet = np.linalg.slogdet(K)
    v = 0.5 * n * np.log((nu - 2) * np.pi) + 0.5 * logdet - sp.gammaln((nu + n) / 2) \
        + sp.gammaln(nu / 2) + 0.5 * (nu + n) * np.log1p(beta / (nu - 2))
    return v / n, a, beta


def tol_of(K, y, a, nu, beta):
    n = len(y)
    kappa = ref.cond(K)
    # relative error of beta is about cond*eps; it enters through log(1 + beta/(nu-2))
    w = 0.5 * (nu + n) / n * beta / (nu - 2 + beta)
    return 1e-8 + 1e3 * ref.EPS * kappa * (w + 1.0) + 1e-10 * (w + abs(np.log(nu - 2))), kappa


@PROP.sub(gen, 6000, 90000, lambda c: len(c['X']) > 1, 'more than one observation')
def value(c):
    from bayeso.tp import tp_likelihood
    X, Y, h, vec, ard = c04.setup(c)
    pm = g.prior_vals(c['prior'], X)
    K = ref.train_cov(c['cov'], X, h)
    y = Y - pm
    n = len(X)
    nu = h['dof']
    want, a, beta = nll(K, y, nu)
    tol, _ = tol_of(K, y, a, nu, beta)
    if n <= 8 and ref.cond(K) < 1e9:
        alt = -ss.multivariate_t(loc=np.zeros(n), shape=K * (nu - 2) / nu, df=nu).logpdf(y[:, 0])
        assert abs(alt / n - want) <= 10 * tol + 1e-6 * abs(want), (alt / n, want)
    kw = dict(use_ard=ard, fix_noise=c['fix_noise'], use_gradient=False)
    got = ref.out(call(tp_likelihood.neg_log_ml, X, Y, vec, c['cov'], pm, **kw), (),
                  'negative log marginal likelihood')
    ref.close(got, want, tol, 'Student-t negative log marginal likelihood')
    p = np.random.RandomState(c['seed']).permutation(n)
    pe = ref.out(call(tp_likelihood.neg_log_ml, X[p], Y[p], vec, c['cov'], pm[p], **kw), (),
                 'negative log marginal likelihood')
    ref.close(pe, got, 2 * tol, 'Student-t likelihood after reordering the data')
    return {'labels': [c['cov'], c['prior'], 'n>150' if n > 150 else 'n<=150',
                       'fix' if c['fix_noise'] else 'free']}


@PROP.sub(gen, 5000, 80000, lambda c: len(c['X']) > 1 and not c['cov'].startswith('set_'),
          'more than one observation, vector inputs')
def gradient(c):
    from bayeso.tp import tp_likelihood
    X, Y, h, vec, ard = c04.setup(c)
    if c['cov'].startswith('set_'):
        return None
    if len(X) > 60:
        X, Y = X[:60], Y[:60]
    pm = g.prior_vals(c['prior'], X)
    K = ref.train_cov(c['cov'], X, h)
    y = Y - pm
    n = len(X)
    nu = h['dof']
    want, a, beta = nll(K, y, nu)
    tol, kappa = tol_of(K, y, a, nu, beta)
    res = call(tp_likelihood.neg_log_ml, X, Y, vec, c['cov'], pm, use_ard=ard,
               fix_noise=c['fix_noise'], use_gradient=True)
    ensure(isinstance(res, tuple) and len(res) == 2, 'expected (value, gradient)')
    ref.close(ref.out(res[0], (), 'value'), want, tol, 'value returned with the gradient')
    grad = ref.out(res[1], vec.shape, 'gradient')
    dK = full_gradient(c['cov'], X, h, c['fix_noise'])
    M = (nu + n) / (nu + beta - 2) * (a @ a.T) - ref.solve(K, np.eye(n))
    gk = -0.5 * np.einsum('ij,ijk->k', M, dK) / n
    mag = 0.5 * np.einsum('ij,ijk->k', np.abs(M), np.abs(dK)) / n
    big = np.max(np.abs(X / h['lengthscales'])) + 1
    gt = (1e-8 + 2e3 * ref.EPS * kappa + 1e3 * ref.EPS * big) * (mag + 1e-6)
    sig = 0 if c['fix_noise'] else 1
    gt[sig] += 1.01 * abs(np.trace(M)) * 1e-5 / abs(h['signal']) / n
    pos = 0 if c['fix_noise'] else 1
    ref.close(np.delete(grad, pos), gk, gt, 'Student-t gradient w.r.t. kernel hyperparameters')
    dig = 0.5 * (sp.digamma((nu + n) / 2) - sp.digamma(nu / 2))
    gnu = -(-0.5 * n / (nu - 2) + dig - 0.5 * np.log1p(beta / (nu - 2))
            + 0.5 * (nu + n) * beta / ((nu - 2) * (nu - 2 + beta))) / n
    scale = 0.5 * n / (nu - 2) + dig + 0.5 * (nu + n) / (nu - 2)
    nt = (1e-9 + 2e3 * ref.EPS * kappa) * scale / n + 1e-9
    if abs(grad[pos] - gnu) > nt:
        if abs(grad[pos] - (gnu - dig / n)) <= nt:
            raise Known('tp-dof-gradient',
                        f'n={n}, dof={nu}: got {grad[pos]}, derivative is {gnu}')
        ref.close(grad[pos], gnu, nt, 'Student-t gradient w.r.t. the degrees of freedom')

PROP.sub(g.huge(gen, 3), 48, 600, None, 'one size of the case is beyond its ordinary maximum',
         name='value_huge')(value)

PROP.sub(g.huge(gen, 2), 40, 400, None, 'one size of the case is beyond its ordinary maximum',
         name='gradient_huge')(gradient)

PROP.sub(g.related(gen), 500, 6000, None, 'the second call differs from the first',
         name='value_again')(g.each(value))
PROP.sub(g.related(gen), 300, 3600, None, 'the second call differs from the first',
         name='gradient_again')(g.each(gradient))
