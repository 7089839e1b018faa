"""C08: Student-t process prediction is the exact multivariate-t conditional."""
import numpy as np

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props import c07

PROP = Prop('C08', 'Student-t process prediction is the exact conditional', [
    'Degrees of freedom in (2, 200]; round-off allowances as for Gaussian processes.',
])


@g.strat
def gen(draw):
    return c07.gen_data(draw, tp=True)


def four(res, q, name):
    ensure(isinstance(res, tuple) and len(res) == 4, '%s: expected four results', name)
    nu = ref.out(res[0], (), name + ' degrees of freedom')
    return (float(nu),) + c07.triple(res[1:], q, name)


def reference(c):
    r = c07.reference(c)
    nu, n = r['h']['dof'], len(r['X'])
    beta = float((r['y'].T @ ref.solve(r['K'], r['y']))[0, 0])
    sc = (nu + beta - 2.0) / (nu + n - 2.0)
    berr = r['kappa'] * 100 * ref.EPS * (beta + np.linalg.norm(r['Ki'], 2) * float(np.sum(r['y'] ** 2))) \
        + 1e-10 * (beta + float(np.abs(r['y']).sum() ** 2) * np.abs(r['Ki']).max() * 10)
    r['S_tp'] = sc * r['S']
    r['tol_tp'] = sc * r['tol_S'] + berr / (nu + n - 2.0) * (np.abs(r['S']) + r['tol_S']) + 1e-12
    r['nu_tp'] = nu + n
    return r


@PROP.sub(gen, 8000, 100000, lambda c: len(c['X']) > 1 and len(c['Xs']) > 1,
          'at least two training and two test points')
def conditional(c):
    from bayeso.tp import tp
    r = reference(c)
    q = len(r['Xs'])
    f = g.prior_fn(c['prior'])
    for name, fn, extra in (('prediction with hyperparameters', tp.predict_with_hyps, ()),
                            ('prediction with a given covariance', tp.predict_with_cov,
                             (r['K'], r['Ki']))):
        nu, mu, sd, S = four(call(fn, r['X'], r['Y'], r['Xs'], *extra, r['h'],
                                  str_cov=c['cov'], prior_mu=f), q, name)
        ref.close(nu, r['nu_tp'], 1e-9 * r['nu_tp'], name + ': degrees of freedom')
        ref.close(mu, r['mu'], r['tol_mu'], name + ': mean')
        ref.close(S, r['S_tp'], r['tol_tp'], name + ': scaled covariance')
        c07.check_sd(sd, S, name)
    return {'labels': [c['cov'], c['prior'], 'kappa<1e5' if r['kappa'] < 1e5 else 'ill']}


@PROP.sub(gen, 4000, 50000, lambda c: len(c['X']) > 1 and len(c['Xs']) > 1,
          'at least two training and two test points')
def relations(c):
    """Agreement with the Gaussian process, permutation, batching and shift relations."""
    from bayeso.gp import gp
    from bayeso.tp import tp
    r = reference(c)
    X, Y, Xs, h, cov = r['X'], r['Y'], r['Xs'], r['h'], c['cov']
    n, q = len(X), len(Xs)
    f = g.prior_fn(c['prior'])
    rs = np.random.RandomState(c['seed'])

    def pred(X_, Y_, Xs_, prior=f):
        return four(call(tp.predict_with_hyps, X_, Y_, Xs_, h, str_cov=cov, prior_mu=prior),
                    len(Xs_), 'prediction')
    nu, mu, sd, S = pred(X, Y, Xs)
    gm, gs, gS = c07.triple(call(gp.predict_with_hyps, X, Y, Xs, h, str_cov=cov, prior_mu=f),
                            q, 'Gaussian-process prediction')
    ref.close(mu, gm, 2 * r['tol_mu'], 'mean of the Student-t and the Gaussian process')
    tm, tS = 2 * r['tol_mu'], 2 * r['tol_tp']
    p, s = rs.permutation(n), rs.permutation(q)
    a = pred(X[p], Y[p], Xs[s])
    ref.close(a[1], mu[s], tm[s], 'mean after reordering training and test points')
    ref.close(a[3], S[np.ix_(s, s)], tS[np.ix_(s, s)], 'covariance after reordering')
    ref.close(a[0], nu, 1e-9 * nu, 'degrees of freedom after reordering')
    i = rs.randint(q)
    a = pred(X, Y, Xs[i:i + 1])
    ref.close(a[1], mu[i:i + 1], tm[i:i + 1], 'mean of a point predicted alone')
    ref.close(a[2][0, 0] ** 2, max(S[i, i], 0.0), 2 * tS[i, i],
              'variance of a point predicted alone')
    g2 = g.prior_fn('linear')
    shift = g2 if f is None else (lambda Z: f(Z) + g2(Z))
    a = pred(X, Y + g2(X), Xs, shift)
    mag = np.abs(g2(X)).max()
    ref.close(a[1], mu + g2(Xs), tm + 1e-10 * (1 + np.abs(g2(Xs))) + 1e-13 * mag * r['kappa'],
              'mean when responses and prior are shifted')
    if mag < 1e3:
        ref.close(a[3], S, tS + 1e-12 * (1 + mag) ** 2 * r['kappa'] * np.abs(S),
                  'covariance when responses and prior are shifted')


@g.strat
def gen_opt(draw):
    c = draw(c07.gen_opt())
    c['opt'] = g.pick(draw, 'SLSQP', 'L-BFGS-B')
    return c


@PROP.sub(gen_opt, 240, 4000, None, 'every case fits hyperparameters and predicts')
def fitted(c):
    from bayeso.tp import tp, tp_kernel
    X, Y, Xs = g.A(c['X']), g.A(c['Y']), g.A(c['Xs'])
    f = g.prior_fn(c['prior'])
    kw = dict(str_optimizer_method=c['opt'], fix_noise=c['fix_noise'])
    try:
        K, Ki, h = tp_kernel.get_optimized_kernel(X, Y, f, c['cov'], **kw)
    except Exception:
        return {'nontrivial': False, 'labels': ['fit diverged']}
    nu, mu, sd, S = four(call(tp.predict_with_optimized_hyps, X, Y, Xs, str_cov=c['cov'],
                              prior_mu=f, **kw), len(Xs), 'prediction with fitted hyperparameters')
    n2, m2, s2, S2 = four(call(tp.predict_with_cov, X, Y, Xs, K, Ki, h, str_cov=c['cov'],
                               prior_mu=f), len(Xs), 'prediction with a given covariance')
    ref.close(nu, n2, 1e-9 * n2, 'degrees of freedom with fitted hyperparameters')
    ref.close(mu, m2, 1e-9 * (1 + np.abs(m2)), 'mean with fitted hyperparameters')
    ref.close(S, S2, 1e-9 * (1 + np.abs(S2)), 'covariance with fitted hyperparameters')
    ref.close(sd, s2, 1e-6 * (1 + np.abs(s2)), 'standard deviation with fitted hyperparameters')
    c2 = dict(c, h={k: np.asarray(v).tolist() for k, v in h.items()})
    r = reference(c2)
    ref.close(nu, r['nu_tp'], 1e-9 * r['nu_tp'], 'fitted degrees of freedom')
    if r['kappa'] < 1e10:
        ref.close(mu, r['mu'], r['tol_mu'], 'fitted posterior mean')
        ref.close(S, r['S_tp'], r['tol_tp'], 'fitted posterior covariance')
    return {'labels': [c['opt'], c['cov']]}

PROP.sub(g.huge(gen, 4), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='conditional_huge')(conditional)

PROP.sub(g.huge(gen, 3), 48, 400, None, 'one size of the case is beyond its ordinary maximum',
         name='relations_huge')(relations)

PROP.sub(g.related(gen), 600, 7200, None, 'the second call differs from the first',
         name='conditional_again')(g.each(conditional))
