"""C02: set kernels are the mean over all pairs of elements."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C02', 'Set covariance functions average over all element pairs', [
    'All sets of one argument have the same cardinality (they are stored in one array); the two '
    'arguments may have different cardinalities.',
])


def sets(draw, n, m, d):
    flat = g.points(draw, n * m, d)
    return [flat[i * m:(i + 1) * m] for i in range(n)]


@g.strat
def pair(draw):
    d = g.size(draw, 3, 6, 14)
    n, l = g.size(draw, 4, 10, 24, p_big=2), g.size(draw, 4, 10, 24, p_big=2)
    m = g.size(draw, 4, 12, 40, p_big=2)
    m2 = m if g.chance(draw, 60) else g.size(draw, 4, 12, 40, p_big=4)
    c = {'cov': g.pick(draw, *g.COV_SET), 'X': sets(draw, n, m, d), 'Xp': sets(draw, l, m2, d),
         'h': g.hyps(draw, d, signed=True, signal=(1e-2, 100.0), ls=(1e-2, 1e3))}
    if m == m2 and g.chance(draw, 20):
        c['Xp'][0] = c['X'][-1]
    c['perm'] = draw(st.permutations(list(range(m))))
    c['perm2'] = draw(st.permutations(list(range(m2))))
    return c


def tolerance(X, Xp, h):
    s2 = h['signal'] ** 2
    big = max(np.max(np.abs(X / h['lengthscales'])), np.max(np.abs(Xp / h['lengthscales'])))
    return 1e-10 * s2 + 100 * ref.EPS * s2 * big


def rule(c):
    return len(c['X'][0]) > 1 and len(c['Xp'][0]) > 1


@PROP.sub(pair, 5000, 60000, rule, 'both arguments hold sets of more than one element')
def mean_over_pairs(c):
    from bayeso import covariance
    X, Xp, h = g.A(c['X']), g.A(c['Xp']), g.np_hyps(c['h'])
    want = ref.kernel(c['cov'], X, Xp, h)
    tol = tolerance(X, Xp, h)
    K = ref.out(call(covariance.cov_main, c['cov'], X, Xp, h, False), want.shape, 'set kernel')
    ref.close(K, want, tol, 'set kernel value (%s)', c['cov'])
    Kt = ref.out(call(covariance.cov_main, c['cov'], Xp, X, h, False), want.T.shape, 'set kernel')
    ref.close(Kt, want.T, tol, 'set kernel with its arguments exchanged')
    Kp = ref.out(call(covariance.cov_main, c['cov'], np.ascontiguousarray(X[:, c['perm']]),
                      np.ascontiguousarray(Xp[:, c['perm2']]), h, False),
                 want.shape, 'set kernel')
    ref.close(Kp, K, 2 * tol, 'set kernel after reordering the elements inside the sets')
    v = call(covariance.cov_set, c['cov'][4:], X[0], Xp[-1], h['lengthscales'], h['signal'])
    ref.close(ref.out(v, (), 'set kernel of one pair'), want[0, -1], tol,
              'set kernel of one pair of sets')
    if X.shape[1] == 1 and Xp.shape[1] == 1:
        B = ref.base_kernel(c['cov'][4:], X[:, 0], Xp[:, 0], h['lengthscales'], h['signal'])
        ref.close(K, B, tol, 'set kernel of singletons')


@g.strat
def same(draw):
    d = g.size(draw, 3, 6, 14)
    n = g.size(draw, 5, 14, 30, p_big=2)
    m = g.size(draw, 4, 12, 30, p_big=2)
    c = {'cov': g.pick(draw, *g.COV_SET), 'X': sets(draw, n, m, d),
         'h': g.hyps(draw, d, signed=True, signal=(1e-2, 100.0), ls=(1e-2, 1e3)),
         'jitter': g.pick(draw, None, None, 0.0, 1e-3)}
    if n > 1 and g.chance(draw, 25):
        c['X'][-1] = c['X'][0][::-1]
    return c


@PROP.sub(same, 4000, 50000, lambda c: len(c['X']) > 1 and len(c['X'][0]) > 1,
          'more than one set of more than one element')
def self_covariance(c):
    from bayeso import covariance
    X, h = g.A(c['X']), g.np_hyps(c['h'])
    kw = {} if c['jitter'] is None else {'jitter': c['jitter']}
    jit = 1e-5 if c['jitter'] is None else c['jitter']
    n = len(X)
    K = ref.out(call(covariance.cov_main, c['cov'], X, X, h, True, **kw), (n, n),
                'set self-covariance')
    want = ref.kernel(c['cov'], X, X, h)
    tol = tolerance(X, X, h)
    ref.close(K, want + jit * np.eye(n), tol + 1e-12 * jit,
              'set self-covariance with jitter on the diagonal only')
    w = np.linalg.eigvalsh((K + K.T) / 2)
    ensure(w[0] >= -n * (tol + 100 * ref.EPS * h['signal'] ** 2),
           'set self-covariance is not positive semi-definite: %.3g', w[0])
    K0 = ref.out(call(covariance.cov_main, c['cov'], X, X.copy(), h, False), (n, n),
                 'set cross-covariance')
    ref.close(K0, want, tol, 'same-set flag changes off-diagonal entries')

PROP.sub(g.huge(pair, 4), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='mean_over_pairs_huge')(mean_over_pairs)

PROP.sub(g.huge(same, 3), 48, 600, None, 'one size of the case is beyond its ordinary maximum',
         name='self_covariance_huge')(self_covariance)

PROP.sub(g.related(pair), 400, 4800, None, 'the second call differs from the first',
         name='mean_over_pairs_again')(g.each(mean_over_pairs))
PROP.sub(g.related(same), 300, 3600, None, 'the second call differs from the first',
         name='self_covariance_again')(g.each(self_covariance))
