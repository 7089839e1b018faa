"""C31: the optimisation loops are the documented loop with the requested configuration."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Entropy, Prop, call, ensure
from vp.props import c14, c15

PROP = Prop('C31', 'Optimisation loops equal the step-by-step loop with the same settings', [
    'Runs are compared under the same random state; a case whose reference loop does not repeat '
    'itself under the same state is counted as trivial.',
    'CMA-ES seeds itself from the clock (behaviour of the cma package) and is not covered.',
])
TOL = 1e-8


@g.strat
def gen(draw):
    c = c14.gen_case(draw, kinds=('gp', 'gp', 'tp', 'rf'), cma=False, max_num=4)
    if c['kind'] == 'gp':
        c['fit'] = g.pick(draw, 'BFGS', 'L-BFGS-B', 'SLSQP-Bounded')
        # unbounded fits only where they cannot diverge
        if c['fit'] == 'BFGS' or c['mlm'] == 'combined':
            c['norm'], c['crit'] = True, 'ml'
        if c['mlm'] == 'converged':
            c['fit'] = g.pick(draw, 'L-BFGS-B', 'SLSQP-Bounded')
    if c['kind'] == 'rf':
        c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton', 'gaussian')
        c['num'] = g.size(draw, 6, 40, 400, p_mid=15, p_big=12)
    A = np.array(c['range'])
    c.update(entry=g.pick(draw, 'seeded', 'inputs', 'all'),
             X=g.points(draw, g.size(draw, 5, 8), len(A), lo=A[:, 0], hi=A[:, 1]),
             num_iter=g.size(draw, 3), init=g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton'),
             seed=g.pick(draw, None, draw(st.integers(0, 2**31 - 1))),
             fun=g.pick(draw, 'sphere', 'linear', 'steps', 'nasty'), ret='float', sleep=False,
             debug=False, e=draw(st.integers(0, 9999)))
    return c


def near(x, X):
    return np.linalg.norm(X - x, axis=1) < TOL


def replacement(info, X):
    """The best new candidate, or the last evaluated point when there is none."""
    P, a = info['next_points'], np.asarray(info['acquisitions']).reshape(-1)
    keep = [i for i in range(len(P)) if not near(P[i], X).any()]
    if not keep:
        return X[-1]
    return P[min(keep, key=lambda i: (a[i], i))]


def by_hand(c, R):
    """The documented loop, one explicit step after another on a directly built optimiser."""
    obj = c15.Objective(c)
    bo = c14.make(c, R)
    kw = dict(str_sampling_method=c['sampling'], num_samples=c['num'])
    if c['kind'] == 'gp':
        kw['str_mlm_method'] = c['mlm']
    X = g.A(c['X'])
    if c['entry'] == 'seeded':
        X = call(bo.get_initials, c['init'], len(X), seed=c['seed'])
    if c['entry'] == 'all':
        Y = np.array([[obj.value(x)] for x in X])
    else:
        Y = np.array([[obj(x)] for x in X])
    for _ in range(c['num_iter']):
        x, info = call(bo.optimize, X, Y, **kw)
        if near(x, X).any():
            x = replacement(info, X)
        X = np.vstack((X, x))
        Y = np.vstack((Y, [[obj(x)]]))
    return X, Y


def by_loop(c, R, wrapper):
    c = dict(c, wrapper=wrapper)
    obj = c15.Objective(c)
    b, model = c15.build(c, obj, R)
    X = g.A(c['X'])
    Y = np.array([[obj.value(x)] for x in X])
    return c15.run(c, b, model, obj, X, Y)


@PROP.sub(gen, 420, 8000, lambda c: c['num_iter'] > 1 and len(c['X']) > 1,
          'several initial points and several iterations')
def agreement(c):
    R = g.A(c['range'])
    runs = []
    for _ in range(2):
        with Entropy(c['e']):
            runs.append(by_hand(c, R.copy()))
    if not np.array_equal(runs[0][0], runs[1][0]):
        return {'nontrivial': False, 'labels': ['not reproducible']}
    X, Y = runs[0]
    for wrapper in ['class'] + (['function'] if c['kind'] == 'gp' else []):
        with Entropy(c['e']):
            res = by_loop(c, R.copy(), wrapper)
        got = ref.out(res[0], X.shape, 'evaluated inputs')
        ensure(np.array_equal(got, X),
               'the %s loop and the same steps by hand first differ at evaluation %d: %s and %s',
               wrapper, *_first(got, X))
        ensure(np.array_equal(ref.out(res[1], Y.shape, 'responses'), Y),
               'the %s loop reports other responses than the same steps by hand', wrapper)
    return {'labels': [c['kind'], c['entry'], c['mlm'] if c['kind'] == 'gp' else 'no schedule']}


def _first(A, B):
    i = int(np.argmax(~np.all(A == B, axis=1)))
    return i, A[i].tolist(), B[i].tolist()
