"""C17: response normalisation is the min-max map and makes proposals scale-free."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Entropy, Prop, call, ensure
from vp.props import c14

PROP = Prop('C17', 'Response normalisation is an order-preserving map onto a fixed range', [
    'Scale invariance of proposals is compared for power-of-two factors, where the normalised '
    'responses are bit-identical.',
])


@g.strat
def gen(draw):
    n = g.size(draw, 10, 200, 1500, p_big=2)
    Y = np.array(g.responses(draw, n))
    Y = Y * 10.0 ** draw(st.integers(-6, 8)) + g.pick(draw, 0.0, 0.0, 1.0, -1e3)
    return {'Y': Y.tolist(), 'a': g.pick(draw, 2.0, 0.5, 3.7, 1e3, 1e-3),
            'b': g.pick(draw, 0.0, 1.0, -7.5), 'int': g.chance(draw, 10),
            'seed': draw(st.integers(0, 10**6))}


@PROP.sub(gen, 12000, 150000, lambda c: len({y[0] for y in c['Y']}) > 1, 'responses that differ')
def min_max(c):
    from bayeso.utils import utils_bo
    Y = g.A(c['Y'])
    if c['int']:
        Y = np.rint(np.clip(Y, -1e6, 1e6)).astype(int)
    n = len(Y)
    keep = Y.copy()
    Z = ref.out(call(utils_bo.normalize_min_max, Y), (n, 1), 'normalised responses')
    ensure(np.array_equal(Y, keep), 'the responses were modified in place')
    F = Y.astype(float)
    lo, hi = F.min(), F.max()
    if lo == hi:
        ensure(np.array_equal(Z, F), 'constant responses were changed to %s', Z[0])
        return {'labels': ['constant']}
    w = hi - lo
    want = (F - lo) / w * 10.0
    tol = 1e-9 + 40 * ref.EPS * (abs(lo) + abs(hi)) / w
    ref.close(Z, want, tol, 'normalised responses')
    ref.close(Z.min(), 0.0, 1e-12, 'smallest normalised response')
    ref.close(Z.max(), 10.0, 1e-9, 'largest normalised response')
    o = np.argsort(F[:, 0], kind='stable')
    ensure(np.all(np.diff(Z[o, 0]) >= -1e-12), 'normalisation changed the order of the responses')
    same = np.diff(F[o, 0]) == 0
    ensure(np.all(np.diff(Z[o, 0])[same] == 0), 'equal responses became different')
    p = np.random.RandomState(c['seed']).permutation(n)
    ref.close(call(utils_bo.normalize_min_max, Y[p]), Z[p], 1e-12, 'normalisation after reordering')
    T = F * c['a'] + c['b']
    if T.max() > T.min():
        wt = T.max() - T.min()
        ref.close(call(utils_bo.normalize_min_max, T), Z,
                  tol + 1e-9 + 100 * ref.EPS * (np.abs(T).max() + abs(c['b'])) / wt
                  + 100 * ref.EPS * np.abs(F).max() / w, 'normalisation of rescaled responses')
    return {'labels': ['int' if c['int'] else 'float']}


@g.strat
def gen_step(draw):
    c = c14.gen_case(draw, kinds=('gp', 'gp', 'tp', 'rf'), cma=False, max_num=4, max_n=8)
    c['norm'] = g.chance(draw, 75)
    c['prior'] = 'none'
    c['crit'] = 'ml'
    if c['kind'] == 'gp':
        c['fit'] = g.pick(draw, 'BFGS', 'L-BFGS-B', 'SLSQP-Bounded')
        c['mlm'] = g.pick(draw, 'regular', 'regular', 'combined', 'converged')
        if not c['norm'] or c['mlm'] == 'converged':
            c['fit'] = g.pick(draw, 'L-BFGS-B', 'SLSQP-Bounded')
            if c['mlm'] == 'combined':
                c['mlm'] = 'regular'
    if c['kind'] == 'rf':
        c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton')
        c['num'] = g.size(draw, 20, 60)
    c['pow'] = g.pick(draw, 1, -1, 3, -4, 10)
    return c


@PROP.sub(gen_step, 400, 7000,
          lambda c: c['norm'] and c['mlm'] != 'converged' and len({y[0] for y in c['Y']}) > 1,
          'normalisation switched on and responses that differ')
def proposals(c):
    """Rescaled responses give the same proposal; the mode without normalisation uses them raw."""
    X, Y = g.A(c['X']), g.A(c['Y'])
    kw = c14.step_args(c)
    with Entropy(3):
        x1, i1 = call(c14.make(c).optimize, X, Y, **kw)
    want = c14.scaled(Y, c)
    got = ref.out(i1['Y_normalized'], Y.shape, 'responses used')
    ref.close(got, want, 1e-10 * (1 + np.abs(want)), 'responses used for fitting')
    ensure(np.array_equal(ref.out(i1['Y_original'], Y.shape, 'original'), Y),
           'the original responses are not reported')
    if np.array_equal(want, Y):
        ensure(np.array_equal(got, Y), 'responses were changed although nothing is to be scaled')
    active = c['norm'] and not (c['kind'] == 'gp' and c['mlm'] == 'converged') \
        and Y.max() > Y.min()
    if active:
        s = 2.0 ** c['pow']
        with Entropy(3):
            x2, i2 = call(c14.make(c).optimize, X, Y * s, **kw)
        ensure(np.array_equal(i2['Y_original'], Y * s), 'the original responses are not reported')
        ref.close(x2, x1, 1e-12 * (1 + np.abs(x1)), 'proposal after rescaling the responses')
        ref.close(i2['acquisitions'], i1['acquisitions'],
                  1e-12 + 1e-10 * np.abs(i1['acquisitions']), 'acquisitions after rescaling')
    return {'labels': [c['kind'], 'normalised' if active else 'raw']}

PROP.sub(g.huge(gen, 10), 100, 1500, None, 'one size of the case is beyond its ordinary maximum',
         name='min_max_huge')(min_max)

PROP.sub(g.related(gen), 500, 6000, None, 'the second call differs from the first',
         name='min_max_again')(g.each(min_max))
