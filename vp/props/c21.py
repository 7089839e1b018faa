"""C21: training covariance, its inverse and its Cholesky factor are consistent."""
import numpy as np

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props import c03

PROP = Prop('C21', 'Training covariance, inverse and Cholesky factor are consistent', [
    'Inverse accuracy is judged relative to the condition number.',
])


@g.strat
def gen(draw):
    is_set = g.chance(draw, 20)
    d = g.size(draw, 4, 8, 20)
    hard = g.chance(draw, 12)
    if is_set:
        n, m = g.size(draw, 4, 8, 20), g.size(draw, 3, 5, 12)
        flat = g.points(draw, n * m, d)
        X = [flat[i * m:(i + 1) * m] for i in range(n)]
    else:
        n = g.size(draw, 7, 30, 250, p_big=2)
        X = g.points(draw, n, d)
    h = g.hyps(draw, d, extreme=True, signed=True, neg_noise=True, noise=(1e-3, 5.0), signal=(1e-2, 50.0),
               ls=(0.05, 100.0))
    if hard:
        h['noise'] = g.pick(draw, 0.0, 1e-6, 1e-3)
        h['signal'] = g.pick(draw, 1e3, 1e4, 5e4, 1e5, 1e5, 1e6)
        if g.chance(draw, 60):
            h['lengthscales'] = g.lengthscales(draw, d, isinstance(h['lengthscales'], list),
                                               20.0, 1e3)
    return {'cov': g.pick(draw, *(g.COV_SET if is_set else g.COV_BASE)), 'X': X, 'h': h,
            'fix_noise': g.chance(draw, 50), 'hard': hard}


@PROP.sub(gen, 10000, 120000, lambda c: len(c['X']) > 1, 'more than one training input')
def factorisation(c):
    from bayeso import covariance
    X, h = g.A(c['X']), g.np_hyps(c['h'])
    n = len(X)
    want = ref.train_cov(c['cov'], X, h)
    s2 = h['signal'] ** 2
    big = np.max(np.abs(X / h['lengthscales'])) + 1
    tol = 1e-10 * s2 + 100 * ref.EPS * (s2 * big + h['noise'] ** 2) + 1e-12
    res = call(covariance.get_kernel_cholesky, X, h, c['cov'], fix_noise=c['fix_noise'])
    ensure(isinstance(res, tuple) and len(res) == 3, 'expected a triple')
    K, L = ref.out(res[0], (n, n), 'covariance'), ref.out(res[1], (n, n), 'Cholesky factor')
    ensure(res[2] is None, 'gradients returned without being requested')
    ensure(np.array_equal(L, np.tril(L)), 'Cholesky factor is not lower triangular')
    ensure(np.all(np.diag(L) > 0), 'Cholesky factor has a non-positive diagonal')
    ensure(np.array_equal(K, K.T), 'training covariance is not symmetric')
    ref.close(L @ L.T, K, 50 * n * ref.EPS * (s2 + h['noise'] ** 2 + 200.0) + 1e-13,
              'product of the Cholesky factors')
    Q = L.astype(np.longdouble)
    drift = float(np.mean(np.sum(Q * Q, axis=1) - np.diag(K)))
    ensure(abs(drift) <= 40 * ref.EPS * (s2 + h['noise'] ** 2 + 200.0) + 1e-13,
           'the Cholesky factor belongs to a covariance whose diagonal is larger by %g', drift)
    extra = K - want
    jit = np.mean(np.diag(extra))
    if not c['hard']:
        ref.close(K, want, tol, 'training covariance (%s)', c['cov'])
    else:
        near = min([0.0, 1e-4, 1e-2, 1e-1, 1.0, 10.0, 100.0], key=lambda v: abs(v - jit))
        ref.close(extra, near * np.eye(n), tol, 'training covariance up to one diagonal jitter')
        pd = np.linalg.eigvalsh(want)[0] > 1e-9 * s2 + 1e-3
        ensure(jit <= tol + (0.0 if pd else 1.0), 'needless diagonal jitter %g', jit)
    if not c['hard']:
        res = call(covariance.get_kernel_inverse, X, h, c['cov'], fix_noise=c['fix_noise'])
        ensure(isinstance(res, tuple) and len(res) == 3, 'expected a triple')
        K2, Ki = ref.out(res[0], (n, n), 'covariance'), ref.out(res[1], (n, n), 'inverse')
        ensure(res[2] is None, 'gradients returned without being requested')
        ref.close(K2, want, tol, 'training covariance (%s)', c['cov'])
        ensure(np.array_equal(K2, K2.T), 'training covariance is not symmetric')
        kappa = ref.cond(want)
        ref.close(K2 @ Ki, np.eye(n), 1e-9 + 100 * n * ref.EPS * kappa,
                  'product of the training covariance and its inverse')
        ref.close(Ki, Ki.T, np.max(np.abs(Ki)) * (1e-9 + 100 * n * ref.EPS * kappa),
                  'transpose of the inverse')
    # asking for the gradient adds the gradient and changes nothing else
    if not c['cov'].startswith('set_'):
        G = c03.full_gradient(c['cov'], X, h, c['fix_noise'])
        gt = np.broadcast_to((1e-9 + 1e3 * ref.EPS * big ** 2) * (
            np.max(np.abs(G), axis=(0, 1), keepdims=True) + s2 * 1e-6), G.shape).copy()
        i = np.arange(n)
        gt[i, i, 0 if c['fix_noise'] else 1] += 2.1e-5 / abs(h['signal'])
        for f, first in ((covariance.get_kernel_cholesky, (K, L)),
                         (covariance.get_kernel_inverse, None if c['hard'] else (K2, Ki))):
            if first is None:
                continue
            res = call(f, X, h, c['cov'], fix_noise=c['fix_noise'], use_gradient=True)
            ensure(isinstance(res, tuple) and len(res) == 3, 'expected a triple')
            ref.close(ref.out(res[0], (n, n), 'covariance'), first[0], tol,
                      'training covariance when the gradient is requested')
            ref.close(ref.out(res[1], (n, n), 'second result'), first[1],
                      1e-9 * np.max(np.abs(first[1])) + 1e-13,
                      'factor or inverse when the gradient is requested')
            ref.close(ref.out(res[2], G.shape, 'gradient'), G, gt,
                      'gradient of the training covariance (%s)', c['cov'])
    return {'labels': [c['cov'], 'hard' if c['hard'] else 'regular']}

PROP.sub(g.huge(gen, 4), 80, 1000, None, 'one size of the case is beyond its ordinary maximum',
         name='factorisation_huge')(factorisation)

PROP.sub(g.related(gen), 800, 9600, None, 'the second call differs from the first',
         name='factorisation_again')(g.each(factorisation))
