"""C05: leave-one-out pseudo-likelihood equals actually leaving each point out."""
import numpy as np

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props import c04

PROP = Prop('C05', 'Leave-one-out score equals actual leave-one-out prediction', [
    'The library adds 1e-5 to each predictive precision; the comparison allows exactly that.',
])


@PROP.sub(c04.gen, 8000, 120000, lambda c: len(c['X']) > 1, 'at least two observations')
def loo(c):
    from bayeso.gp import gp_likelihood
    X, Y, h, vec, ard = c04.setup(c)
    pm = g.prior_vals(c['prior'], X)
    n = len(X)
    if n > 120:
        X, Y, pm, n = X[:120], Y[:120], pm[:120], 120
    K = ref.train_cov(c['cov'], X, h)
    y = Y - pm
    total = 0.0
    slack = 0.0
    worst = 0.0
    for i in range(n):
        o = [j for j in range(n) if j != i]
        if o:
            w = ref.solve(K[np.ix_(o, o)], K[o, i:i + 1])
            mu = float((w.T @ y[o])[0, 0])
            v = float(K[i, i] - (w.T @ K[o, i:i + 1])[0, 0])
        else:
            mu, v = 0.0, float(K[i, i])
        r2 = float((y[i, 0] - mu) ** 2)
        v2 = 1.0 / (1.0 / v + 1e-5)
        t1 = 0.5 * np.log(v) + 0.5 * r2 / v
        t2 = 0.5 * np.log(v2) + 0.5 * r2 / v2
        total += 0.5 * (t1 + t2) + 0.5 * np.log(2 * np.pi)
        slack += 0.5 * (abs(np.log(v) - np.log(v2)) + r2 * abs(1 / v - 1 / v2))
        worst = max(worst, r2 / v, float(np.sum(y ** 2)) / v)
    want = total / n
    kappa = ref.cond(K)
    tol = 0.6 * slack / n + 1e-8 + 1e-9 * worst + 1e3 * ref.EPS * kappa * (1 + worst)
    args = (X, Y, vec, c['cov'], pm)
    got = ref.out(call(gp_likelihood.neg_log_pseudo_l_loocv, *args, fix_noise=c['fix_noise'],
                       use_ard=ard), (), 'leave-one-out score')
    ref.close(got, want, tol, 'leave-one-out score (%s)', c['cov'])
    if ard:
        # per-dimension lengthscales are the default
        got2 = ref.out(call(gp_likelihood.neg_log_pseudo_l_loocv, *args,
                            fix_noise=c['fix_noise']), (), 'leave-one-out score')
        ref.close(got2, want, tol, 'leave-one-out score (default lengthscales)')
    return {'labels': [c['cov'], c['prior'], 'ard' if ard else 'shared']}

PROP.sub(g.huge(c04.gen, 2), 40, 400, None, 'one size of the case is beyond its ordinary maximum',
         name='loo_huge')(loo)

PROP.sub(g.related(c04.gen), 500, 6000, None, 'the second call differs from the first',
         name='loo_again')(g.each(loo))
