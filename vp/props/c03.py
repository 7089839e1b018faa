"""C03: kernel gradients are the derivatives w.r.t. the hyperparameter vector."""
import numpy as np

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C03', 'Covariance gradients are the exact derivatives', [
    'The signal component may include the derivative of the scaled diagonal jitter (the existing '
    'unit tests pin that); allowed only on the diagonal and only for that component.',
])


@g.strat
def gen(draw):
    d = g.size(draw, 4, 10, 20)
    n = g.size(draw, 6, 25, 150, p_big=2)
    return {'cov': g.pick(draw, *g.COV_BASE), 'X': g.points(draw, n, d),
            'h': g.hyps(draw, d, extreme=True, signed=True, neg_noise=True, noise=(1e-3, 5.0), signal=(1e-2, 50.0),
                        ls=(0.05, 100.0)),
            'fix_noise': g.chance(draw, 50), 'jitter': g.pick(draw, None, None, 0.0, 1e-3),
            'entry': g.pick(draw, 'grad', 'inverse', 'cholesky')}


def d_kernel(cov, X, h):
    """Analytic derivatives of the noise-free kernel: [signal, lengthscales...]."""
    s, ls = h['signal'], h['lengthscales']
    diff2 = (X[:, None, :] - X[None, :, :]) ** 2
    r = np.sqrt(np.sum(diff2 / np.square(ls), axis=2))
    K = ref.base_kernel(cov, X, X, ls, s)
    if cov in ('se', 'eq'):
        q = np.exp(-0.5 * r ** 2)
    elif cov == 'matern32':
        q = 3.0 * np.exp(-np.sqrt(3.0) * r)
    else:
        q = 5.0 / 3.0 * (1 + np.sqrt(5.0) * r) * np.exp(-np.sqrt(5.0) * r)
    out = [2.0 * K / s]
    if isinstance(ls, np.ndarray):
        for i in range(len(ls)):
            out.append(s * s * q * diff2[:, :, i] / ls[i] ** 3)
    else:
        out.append(s * s * q * np.sum(diff2, axis=2) / ls ** 3)
    return out


def full_gradient(cov, X, h, fix_noise):
    n = len(X)
    parts = [] if fix_noise else [2.0 * h['noise'] * np.eye(n)]
    return np.stack(parts + d_kernel(cov, X, h), axis=2)


@PROP.sub(gen, 10000, 150000, lambda c: len(c['X']) > 1, 'more than one point')
def derivative(c):
    from bayeso import covariance
    X, h = g.A(c['X']), g.np_hyps(c['h'])
    fix = c['fix_noise']
    want = full_gradient(c['cov'], X, h, fix)
    jit = 1e-5
    if c['entry'] == 'grad':
        kw = {}
        if c['jitter'] is not None:
            kw['jitter'] = jit = c['jitter']
        G = call(covariance.grad_cov_main, c['cov'], X, X, h, fix, same_X_Xp=True, **kw)
    else:
        f = covariance.get_kernel_inverse if c['entry'] == 'inverse' \
            else covariance.get_kernel_cholesky
        res = call(f, X, h, c['cov'], fix_noise=fix, use_gradient=True)
        ensure(isinstance(res, tuple) and len(res) == 3, 'expected a triple')
        G = res[2]
        ensure(G is not None, 'gradients were requested but not returned')
    G = ref.out(G, want.shape, 'kernel gradient')
    n = len(X)
    big = np.max(np.abs(X / h['lengthscales'])) + 1
    scale = np.max(np.abs(want), axis=(0, 1), keepdims=True) + h['signal'] ** 2 * 1e-6
    tol = np.broadcast_to((1e-9 + 1e3 * ref.EPS * big ** 2) * scale, want.shape).copy()
    sig = 0 if fix else 1
    slack = 2.0 * jit / abs(h['signal'])
    tol[np.arange(n), np.arange(n), sig] += slack * (1 + 1e-9)
    ref.close(G, want, tol, 'derivative of the kernel (%s)', c['cov'])
    return {'labels': [c['cov'], c['entry'],
                       'ard' if isinstance(c['h']['lengthscales'], list) else 'shared',
                       'fix' if fix else 'free']}


@PROP.sub(gen, 3000, 40000, lambda c: len(c['X']) > 1, 'more than one point')
def finite_differences(c):
    """Agreement with numerical differentiation of the library's own kernel."""
    from bayeso import covariance
    X, h = g.A(c['X'][:8]), g.np_hyps(c['h'])
    fix = c['fix_noise']
    n = len(X)
    vec = ([] if fix else [h['noise']]) + [h['signal']] + \
        list(np.atleast_1d(h['lengthscales']))

    def cov(v):
        v = list(v)
        hh = dict(h)
        if not fix:
            hh['noise'] = float(v.pop(0))
        hh['signal'] = float(v[0])
        hh['lengthscales'] = np.array(v[1:]) if isinstance(h['lengthscales'], np.ndarray) \
            else float(v[1])
        K = call(covariance.cov_main, c['cov'], X, X, hh, True)
        return np.asarray(K) + hh['noise'] ** 2 * np.eye(n)

    G = ref.out(call(covariance.grad_cov_main, c['cov'], X, X, h, fix), (n, n, len(vec)),
                'kernel gradient')
    for i, v in enumerate(vec):
        st = 1e-4 * abs(v)
        p, q = list(vec), list(vec)
        p[i] += st
        q[i] -= st
        p2, q2 = list(vec), list(vec)
        p2[i] += st / 2
        q2[i] -= st / 2
        D1 = (cov(p) - cov(q)) / (2 * st)
        D2 = (cov(p2) - cov(q2)) / st
        D = (4 * D2 - D1) / 3
        big = np.max(np.abs(X / h['lengthscales'])) + 1
        s2 = h['signal'] ** 2
        err = np.abs(D2 - D1) + 1e-6 * s2 / abs(v) + 1e3 * ref.EPS * s2 * big / st
        err = err + 2.1e-5 / abs(h['signal']) * np.eye(n)
        ref.close(G[:, :, i], D, err, 'numerical derivative, hyperparameter %d (%s)', i, c['cov'])

PROP.sub(g.huge(gen, 4), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='derivative_huge')(derivative)

PROP.sub(g.related(gen), 400, 4800, None, 'the second call differs from the first',
         name='derivative_again')(g.each(derivative))
