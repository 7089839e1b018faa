"""C07: Gaussian-process prediction is exact conditioning of the joint Gaussian."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C07', 'GP prediction is the exact Gaussian conditional', [
    'Round-off allowances scale with the condition number of the training covariance; the '
    'generators keep most cases well conditioned so that the comparison stays sharp.',
    'The library adds 1e-5 to the diagonal of any covariance of a set of points with itself.',
])


def gen_data(draw, tp=False, max_n=40):
    is_set = g.chance(draw, 15)
    d = g.size(draw, 4, 10, 20)
    n = g.size(draw, 8, 20 if is_set else max_n, None if is_set else 230, p_big=2)
    q = g.size(draw, 6, 40, None if is_set else 260, p_big=2)
    if is_set:
        m1, m2 = g.size(draw, 3, 4), g.size(draw, 3, 4)
        flat = g.points(draw, n * m1, d)
        X = [flat[i * m1:(i + 1) * m1] for i in range(n)]
        flat = g.points(draw, q * m2, d)
        Xs = [flat[i * m2:(i + 1) * m2] for i in range(q)]
        if m1 == m2 and g.chance(draw, 40):
            Xs[0] = X[0]
    else:
        X = g.points(draw, n, d)
        Xs = g.points(draw, q, d)
        mix = g.pick(draw, 'apart', 'apart', 'near', 'shared', 'far')
        r = g.rnd(draw)
        P, Q = np.array(X), np.array(Xs)
        if mix == 'shared':
            k = min(n, q)
            Q[:k] = P[:k]
        elif mix == 'near':
            Q = P[r.randint(0, n, size=q)] + 0.3 * r.randn(q, d) * (np.std(P) + 0.1)
        elif mix == 'far':
            Q = Q + 1e4
        Xs = Q.tolist()
    hard = g.chance(draw, 12)
    h = g.hyps(draw, d, tp=tp, signed=True, extreme=hard, low_noise=1e-4 if hard else None,
               neg_noise=True, noise=(1e-2, 1.0) if hard else (0.05, 1.0),
               signal=(0.1, 20.0) if hard else (0.3, 3.0), ls=(0.05, 50.0) if hard else (0.2, 10.0))
    # lengthscales on the scale of the data keep correlations away from 0 and 1
    if not hard and g.chance(draw, 60):
        flat = np.array(X).reshape(-1, d)
        sc = np.maximum(np.round(np.std(flat, axis=0), 3), 0.05)
        ls = np.array(h['lengthscales'])
        h['lengthscales'] = (ls * sc).tolist() if ls.ndim else float(ls * sc.mean())
    return {'cov': g.pick(draw, *(g.COV_SET if is_set else g.COV_BASE)), 'X': X, 'Xs': Xs,
            'Y': g.responses(draw, n), 'h': h, 'prior': g.prior(draw),
            'seed': draw(st.integers(0, 10**6))}


@g.strat
def gen(draw):
    return gen_data(draw)


def reference(c):
    X, Y, Xs, h = g.A(c['X']), g.A(c['Y']), g.A(c['Xs']), g.np_hyps(c['h'])
    m, ms = g.prior_vals(c['prior'], X), g.prior_vals(c['prior'], Xs)
    K = ref.train_cov(c['cov'], X, h)
    Ks = ref.kernel(c['cov'], X, Xs, h)
    Kss = ref.kernel(c['cov'], Xs, Xs, h) + ref.JITTER_COV * np.eye(len(Xs))
    Ki = ref.solve(K, np.eye(len(X)))
    Ki = (Ki + Ki.T) / 2
    y = Y - m
    sol = ref.solve(K, np.hstack([y, Ks]))
    mu = Ks.T @ sol[:, :1] + ms
    S = Kss - Ks.T @ sol[:, 1:]
    kappa = ref.cond(K)
    s2 = h['signal'] ** 2
    big = np.max(np.abs(X / h['lengthscales'])) + np.max(np.abs(Xs / h['lengthscales'])) + 1
    krel = 1e-10 + 100 * ref.EPS * big       # relative error of one kernel entry (of s2)
    aK = np.abs(Ki)
    # first-order effect of kernel-entry and inversion errors
    kerr = krel * s2
    ierr = kappa * 30 * ref.EPS * np.linalg.norm(Ki, 2) * len(X)
    ynorm, kcol = np.abs(y).sum(), np.abs(Ks).sum(axis=0)
    tol_mu = (kerr * (aK @ np.abs(y)).sum() + kcol * (ierr * ynorm)
              + kerr * np.abs(Ks.T @ Ki).sum(axis=1) * np.abs(Ki @ y).sum())[:, None] \
        + 1e-10 * (np.abs(mu) + np.abs(ms) + 1e-3)
    row = np.abs(Ks.T @ Ki).sum(axis=1)
    tol_S = kerr * (1 + row[:, None] + row[None, :] + row[:, None] * row[None, :]) \
        + ierr * kcol[:, None] * kcol[None, :] + 1e-12
    return dict(X=X, Y=Y, Xs=Xs, h=h, m=m, ms=ms, K=K, Ki=Ki, y=y, mu=mu, S=S, Kss=Kss, Ks=Ks,
                tol_mu=tol_mu, tol_S=tol_S, kappa=kappa)


def triple(res, q, name):
    ensure(isinstance(res, tuple) and len(res) == 3, '%s: expected a triple', name)
    mu = ref.out(res[0], (q, 1), name + ' mean')
    sd = ref.out(res[1], (q, 1), name + ' standard deviation')
    S = ref.out(res[2], (q, q), name + ' covariance')
    return mu, sd, S


def check_sd(sd, S, name):
    ensure(np.all(sd >= 0), '%s: negative standard deviation', name)
    ref.close(sd[:, 0] ** 2, np.maximum(np.diag(S), 0.0), 1e-12 + 1e-10 * np.abs(np.diag(S)),
              name + ': squared standard deviation vs variance')


@PROP.sub(gen, 8000, 100000, lambda c: len(c['X']) > 1 and len(c['Xs']) > 1,
          'at least two training and two test points')
def conditional(c):
    from bayeso.gp import gp
    r = reference(c)
    q = len(r['Xs'])
    f = g.prior_fn(c['prior'])
    mu, sd, S = triple(call(gp.predict_with_hyps, r['X'], r['Y'], r['Xs'], r['h'],
                            str_cov=c['cov'], prior_mu=f), q, 'prediction with hyperparameters')
    ref.close(mu, r['mu'], r['tol_mu'], 'posterior mean (%s)', c['cov'])
    ref.close(S, r['S'], r['tol_S'], 'posterior covariance (%s)', c['cov'])
    check_sd(sd, S, 'prediction with hyperparameters')
    mu2, sd2, S2 = triple(call(gp.predict_with_cov, r['X'], r['Y'], r['Xs'], r['K'], r['Ki'],
                               r['h'], str_cov=c['cov'], prior_mu=f), q,
                          'prediction with a given covariance')
    ref.close(mu2, r['mu'], r['tol_mu'], 'posterior mean from a given covariance (%s)', c['cov'])
    ref.close(S2, r['S'], r['tol_S'], 'posterior covariance from a given covariance')
    check_sd(sd2, S2, 'prediction with a given covariance')
    return {'labels': [c['cov'], c['prior'], 'kappa<1e5' if r['kappa'] < 1e5 else 'ill']}


@PROP.sub(gen, 5000, 60000, lambda c: len(c['X']) > 1 and len(c['Xs']) > 1,
          'at least two training and two test points')
def relations(c):
    """Permutation, batching, shift equivariance, linearity, shrinkage, symmetry."""
    from bayeso.gp import gp
    r = reference(c)
    X, Y, Xs, h, cov = r['X'], r['Y'], r['Xs'], r['h'], c['cov']
    n, q = len(X), len(Xs)
    rs = np.random.RandomState(c['seed'])
    f = g.prior_fn(c['prior'])

    def pred(X_, Y_, Xs_, prior=f):
        return triple(call(gp.predict_with_hyps, X_, Y_, Xs_, h, str_cov=cov, prior_mu=prior),
                      len(Xs_), 'prediction')
    mu, sd, S = pred(X, Y, Xs)
    tm, tS = 2 * r['tol_mu'], 2 * r['tol_S']
    p = rs.permutation(n)
    a = pred(X[p], Y[p], Xs)
    ref.close(a[0], mu, tm, 'posterior mean after reordering the training data')
    ref.close(a[2], S, tS, 'posterior covariance after reordering the training data')
    p = rs.permutation(q)
    a = pred(X, Y, Xs[p])
    ref.close(a[0], mu[p], tm[p], 'posterior mean after reordering the test points')
    ref.close(a[2], S[np.ix_(p, p)], tS[np.ix_(p, p)],
              'posterior covariance after reordering the test points')
    i = rs.randint(q)
    a = pred(X, Y, Xs[i:i + 1])
    ref.close(a[0], mu[i:i + 1], tm[i:i + 1], 'mean of a point predicted alone vs in a batch')
    ref.close(a[1][0, 0] ** 2, max(S[i, i], 0.0), 2 * tS[i, i],
              'variance of a point predicted alone vs in a batch')
    # adding a function to both the responses and the prior shifts the mean by it
    g2 = g.prior_fn('quad')
    shift = (lambda Z: g2(Z)) if f is None else (lambda Z: f(Z) + g2(Z))
    a = pred(X, Y + g2(X), Xs, shift)
    add = 1e-10 * (1 + np.abs(g2(Xs))) + 1e-13 * np.abs(g2(X)).max() * r['kappa']
    ref.close(a[0], mu + g2(Xs), tm + add, 'posterior mean when responses and prior are shifted')
    ref.close(a[2], S, tS, 'posterior covariance when responses and prior are shifted')
    # the covariance does not depend on the responses; the mean is linear in them
    a = pred(X, -2.0 * Y, Xs, None)
    b = pred(X, Y, Xs, None)
    ref.close(a[2], b[2], 1e-12 + 1e-10 * np.abs(b[2]), 'covariance depends on the responses')
    ynorm = np.abs(Y).sum()
    lin = 1e-9 * (1 + np.abs(b[0])) + 1e-10 * ynorm \
        + 1e2 * ref.EPS * r['kappa'] * ynorm * np.abs(r['Ks']).sum(axis=0)[:, None]
    ref.close(a[0], -2.0 * b[0], lin, 'posterior mean is not linear in the responses')
    ensure(np.all(np.abs(S - S.T) <= tS), 'posterior covariance is not symmetric')
    prior_var = h['signal'] ** 2 + ref.JITTER_COV
    ensure(np.all(np.diag(S) <= prior_var + np.diag(tS)),
           'a posterior variance exceeds the prior variance')
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    ensure(ev[0] >= -(q * tS.max() + 1e-10 * q * prior_var),
           'posterior covariance has eigenvalue %g', ev[0])


@g.strat
def gen_opt(draw):
    d = g.size(draw, 3, 5, 9)
    n = g.size(draw, 8, 15, 40, low=1)
    is_set = g.chance(draw, 10)
    if is_set:
        flat = g.points(draw, 2 * n, d, spread=2.0)
        X = [flat[2 * i:2 * i + 2] for i in range(n)]
        flat = g.points(draw, 6, d, spread=2.0)
        Xs = [flat[2 * i:2 * i + 2] for i in range(3)]
    else:
        X, Xs = g.points(draw, n, d, spread=2.0), g.points(draw, g.size(draw, 5, 30, 130), d, spread=2.0)
    return {'cov': g.pick(draw, *(g.COV_SET if is_set else g.COV_BASE)), 'X': X, 'Xs': Xs,
            'Y': g.responses(draw, n, scale=False), 'prior': g.prior(draw),
            'opt': g.pick(draw, 'BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'),
            'fix_noise': g.chance(draw, 50)}


@PROP.sub(gen_opt, 240, 4000, None, 'every case fits hyperparameters and predicts')
def fitted(c):
    """Prediction with fitted hyperparameters = fit, then predict with those hyperparameters."""
    from bayeso.gp import gp, gp_kernel
    X, Y, Xs = g.A(c['X']), g.A(c['Y']), g.A(c['Xs'])
    f = g.prior_fn(c['prior'])
    kw = dict(str_optimizer_method=c['opt'], fix_noise=c['fix_noise'])
    try:
        K, Ki, h = gp_kernel.get_optimized_kernel(X, Y, f, c['cov'], **kw)
    except Exception:  # the unbounded fit left the positive-definite range
        return {'nontrivial': False, 'labels': ['fit diverged']}
    mu, sd, S = triple(call(gp.predict_with_optimized_hyps, X, Y, Xs, str_cov=c['cov'],
                            prior_mu=f, **kw), len(Xs), 'prediction with fitted hyperparameters')
    m2, s2, S2 = triple(call(gp.predict_with_cov, X, Y, Xs, K, Ki, h, str_cov=c['cov'],
                             prior_mu=f), len(Xs), 'prediction with a given covariance')
    ref.close(mu, m2, 1e-9 * (1 + np.abs(m2)), 'mean with fitted hyperparameters')
    ref.close(S, S2, 1e-9 * (1 + np.abs(S2)), 'covariance with fitted hyperparameters')
    ref.close(sd, s2, 1e-6 * (1 + np.abs(s2)), 'standard deviation with fitted hyperparameters')
    hh = {k: (v if np.ndim(v) else float(v)) for k, v in h.items()}
    c2 = dict(c, h={k: np.asarray(v).tolist() for k, v in hh.items()})
    r = reference(c2)
    if r['kappa'] < 1e10:
        ref.close(mu, r['mu'], r['tol_mu'], 'fitted posterior mean')
        ref.close(S, r['S'], r['tol_S'], 'fitted posterior covariance')
    return {'labels': [c['opt'], c['cov']]}

PROP.sub(g.huge(gen, 4), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='conditional_huge')(conditional)

PROP.sub(g.huge(gen, 3), 48, 400, None, 'one size of the case is beyond its ordinary maximum',
         name='relations_huge')(relations)

PROP.sub(g.related(gen), 600, 7200, None, 'the second call differs from the first',
         name='conditional_again')(g.each(conditional))
