"""C01: the base kernels are the stated closed forms, for every input."""
import numpy as np

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C01', 'Base covariance functions equal their closed forms', [
    'Kernel values compared in double precision with a tolerance of 1e-10*signal^2 plus the '
    'rounding of the scaled coordinates.',
])


@g.strat
def pair(draw):
    d = g.size(draw, 4, 12, 40, p_mid=15, p_big=2)
    n = g.size(draw, 6, 40, 280, p_mid=10, p_big=2)
    m = g.size(draw, 6, 40, 280, p_mid=10, p_big=2)
    c = {'cov': g.pick(draw, *g.COV_BASE), 'X': g.points(draw, n, d),
         'h': g.hyps(draw, d, signed=True, noise=(1e-3, 5.0), signal=(1e-2, 100.0),
                     ls=(1e-2, 1e3))}
    rel = g.pick(draw, 'other', 'other', 'overlap', 'same')
    if rel == 'same':
        c['Xp'] = c['X']
    else:
        c['Xp'] = g.points(draw, m, d)
        if rel == 'overlap':
            k = min(n, m)
            c['Xp'] = c['X'][:k] + c['Xp'][k:]
    c['dtype'] = g.pick(draw, 'float', 'float', 'float', 'int')
    c['order'] = g.pick(draw, 'C', 'C', 'F')
    return c


def unpack(c):
    X, Xp = g.A(c['X']), g.A(c['Xp'])
    if c['dtype'] == 'int':
        X, Xp = np.rint(X).astype(int), np.rint(Xp).astype(int)
    if c['order'] == 'F':
        X, Xp = np.asfortranarray(X), np.asfortranarray(Xp)
    h = g.np_hyps(c['h'])
    return X, Xp, h


def tolerance(X, Xp, h):
    s2 = h['signal'] ** 2
    big = max(np.max(np.abs(X / h['lengthscales'])), np.max(np.abs(Xp / h['lengthscales'])))
    return 1e-10 * s2 + 100 * ref.EPS * s2 * big


def nontrivial(c):
    return c['X'] != c['Xp'] and len(c['X']) * len(c['Xp']) > 1


@PROP.sub(pair, 12000, 150000, nontrivial,
          'two different point sets with more than one pair of points')
def closed_form(c):
    from bayeso import covariance
    X, Xp, h = unpack(c)
    want = ref.kernel(c['cov'], X, Xp, h)
    tol = tolerance(X, Xp, h)
    K = ref.out(call(covariance.cov_main, c['cov'], X, Xp, h, False),
                want.shape, 'kernel matrix')
    ref.close(K, want, tol, 'kernel value (%s)', c['cov'])
    f = call(covariance.choose_fun_cov, c['cov'])
    K2 = ref.out(call(f, X, Xp, h['lengthscales'], h['signal']), want.shape,
                 'kernel matrix (function)')
    ref.close(K2, want, tol, 'kernel value through the chosen function (%s)', c['cov'])
    named = {'se': covariance.cov_se, 'eq': covariance.cov_se,
             'matern32': covariance.cov_matern32, 'matern52': covariance.cov_matern52}[c['cov']]
    K3 = ref.out(call(named, X, Xp, h['lengthscales'], h['signal']), want.shape,
                 'kernel matrix (named function)')
    ref.close(K3, want, tol, 'kernel value of the named function (%s)', c['cov'])
    Kt = ref.out(call(covariance.cov_main, c['cov'], Xp, X, h, False),
                 want.T.shape, 'transposed kernel matrix')
    ref.close(Kt, want.T, tol, 'kernel with its arguments exchanged')
    return {'labels': [c['cov'], 'ard' if isinstance(c['h']['lengthscales'], list) else 'shared',
                       'large' if len(c['X']) > 40 or len(c['Xp']) > 40 else 'small']}


@g.strat
def same(draw):
    d = g.size(draw, 4, 12, 40, p_mid=15, p_big=2)
    n = g.size(draw, 6, 40, 280, p_mid=10, p_big=2)
    return {'cov': g.pick(draw, *g.COV_BASE), 'X': g.points(draw, n, d),
            'h': g.hyps(draw, d, signed=True, noise=(1e-3, 5.0), signal=(1e-2, 100.0),
                        ls=(1e-2, 1e3)),
            'jitter': g.pick(draw, None, None, 0.0, 1e-5, 1e-3, 0.5),
            'alias': g.chance(draw, 50), 'dtype': g.pick(draw, 'float', 'float', 'int'),
            'order': 'C'}


@PROP.sub(same, 6000, 80000, lambda c: len(c['X']) > 1, 'more than one point')
def self_covariance(c):
    from bayeso import covariance
    X, Xp, h = unpack(dict(c, Xp=c['X']))
    if c['alias']:
        Xp = X
    kw = {} if c['jitter'] is None else {'jitter': c['jitter']}
    jit = 1e-5 if c['jitter'] is None else c['jitter']
    n = len(X)
    K = ref.out(call(covariance.cov_main, c['cov'], X, Xp, h, True, **kw), (n, n),
                'self-covariance')
    want = ref.kernel(c['cov'], X, X, h)
    tol = tolerance(X, X, h)
    ref.close(K, want + jit * np.eye(n), tol + 1e-12 * jit,
              'self-covariance with jitter on the diagonal only')
    ref.close(K, K.T, tol, 'symmetry of the self-covariance')
    ref.close(np.diag(K), np.full(n, h['signal'] ** 2 + jit), tol + 1e-12 * jit,
              'diagonal of the self-covariance')
    w = np.linalg.eigvalsh((K + K.T) / 2)
    ensure(w[0] >= -n * (tol + 100 * ref.EPS * h['signal'] ** 2),
           'self-covariance is not positive semi-definite: smallest eigenvalue %.3g', w[0])
    # without the flag nothing is added, even when the two point sets coincide
    K0 = ref.out(call(covariance.cov_main, c['cov'], X, Xp, h, False), (n, n), 'cross-covariance')
    ref.close(K0, want, tol, 'covariance of coinciding point sets without the same-set flag')

PROP.sub(g.huge(pair, 4), 160, 2000, None, 'one size of the case is beyond its ordinary maximum',
         name='closed_form_huge')(closed_form)

PROP.sub(g.huge(same, 4), 80, 1000, None, 'one size of the case is beyond its ordinary maximum',
         name='self_covariance_huge')(self_covariance)

PROP.sub(g.related(pair), 600, 7200, None, 'the second call differs from the first',
         name='closed_form_again')(g.each(closed_form))
PROP.sub(g.related(same), 300, 3600, None, 'the second call differs from the first',
         name='self_covariance_again')(g.each(self_covariance))
