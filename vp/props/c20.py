"""C20: run summaries (best-so-far, mean, spread, cumulative time)."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C20', 'Run summaries are the running minima and elapsed times of the runs', [])


@g.strat
def gen(draw):
    rounds = g.size(draw, 5, 30, 120, p_big=2)
    init = g.size(draw, 4, 10, 120)
    it = g.size(draw, 6, 40, 160)
    r = g.rnd(draw)
    style = g.pick(draw, 'ties', 'noise', 'down', 'up', 'const', 'scaled',
                   'close')
    n = init + it
    if style == 'ties':
        Y = r.randint(-3, 4, size=(rounds, n)).astype(float)
    elif style == 'noise':
        Y = r.randn(rounds, n) * 10.0 ** r.randint(-3, 4)
    elif style == 'scaled':
        a = 10.0 ** r.randint(-12, 13)
        Y = (r.rand(rounds, n) + r.choice([-3.0, 0.0, 2.0])) * a
    elif style == 'close':
        Y = r.choice([0.0, 1.0, -7.0]) + r.randint(-9, 10, size=(rounds, n)) \
            * 10.0 ** r.randint(-15, -6)
    elif style == 'down':
        Y = -np.cumsum(r.rand(rounds, n), axis=1)
    elif style == 'up':
        Y = np.cumsum(r.rand(rounds, n), axis=1) + 5
    else:
        Y = np.full((rounds, n), 2.5)
    return {'Y': (Y if style in ('scaled', 'close') else Y.round(6)).tolist(), 'init': init, 'seed': draw(st.integers(0, 10**6))}


@PROP.sub(gen, 8000, 80000, lambda c: len(c['Y']) > 1, 'several runs')
def minima(c):
    from bayeso.utils import utils_common
    Y, k = g.A(c['Y']), c['init']
    R, n = Y.shape
    keep = Y.copy()
    res = call(utils_common.get_minimum, Y, k)
    ensure(np.array_equal(Y, keep), 'the responses were modified')
    ensure(isinstance(res, tuple) and len(res) == 4, 'expected four results')
    t = n - k + 1
    M = ref.out(res[0], (R, t), 'running minima')
    for i in range(R):
        best = min(Y[i, :k])
        for j in range(t):
            if j:
                best = min(best, Y[i, k + j - 1])
            ensure(M[i, j] == best, 'run %d, step %d: best so far is %r, reported %r', i, j,
                   float(best), float(M[i, j]))
    for j in range(t):
        col = [float(v) for v in M[:, j]]
        m = math.fsum(col) / R
        v = math.fsum((x - m) ** 2 for x in col) / (R - 1) if R > 1 else 0.0
        tol = 1e-9 * (1 + max(abs(x) for x in col))
        ref.close(ref.out(res[1], (t,), 'mean')[j], m, tol, 'mean best so far at step %d', j)
        ref.close(ref.out(res[2], (t,), 'standard deviation')[j], math.sqrt(v), tol,
                  'standard deviation at step %d', j)
        ref.close(ref.out(res[3], (t,), 'standard error')[j], math.sqrt(v / R), tol,
                  'standard error at step %d', j)
    ensure(np.all(np.diff(M, axis=1) <= 0), 'best so far increases')
    p = np.random.RandomState(c['seed']).permutation(R)
    r2 = call(utils_common.get_minimum, Y[p], k)
    ensure(np.array_equal(r2[0], M[p]), 'running minima depend on the order of the runs')


@g.strat
def gen_time(draw):
    rounds = g.size(draw, 5, 20, 120, p_big=2)
    init = g.size(draw, 4, 8, 120)
    it = g.size(draw, 6, 30, 160)
    inc = g.chance(draw, 50)
    r = g.rnd(draw)
    T = r.rand(rounds, it + (init if inc or r.rand() < 0.5 else 0)) * 10.0 ** r.randint(-3, 3)
    return {'T': T.round(6).tolist(), 'init': init, 'include': inc}


@PROP.sub(gen_time, 6000, 60000, lambda c: len(c['T']) > 1, 'several runs')
def times(c):
    from bayeso.utils import utils_common
    T, k = g.A(c['T']), c['init']
    keep = T.copy()
    got = call(utils_common.get_time, T, k, c['include'])
    ensure(np.array_equal(T, keep), 'the times were modified')
    W = T[:, k:] if c['include'] else T
    t = W.shape[1] + 1
    got = ref.out(got, (t,), 'elapsed time')
    ensure(got[0] == 0.0, 'elapsed time starts at %r', float(got[0]))
    for j in range(t):
        want = math.fsum(float(v) for v in W[:, :j].ravel()) / len(W)
        ref.close(got[j], want, 1e-9 * (1 + want), 'mean elapsed time after %d evaluations', j)


@g.strat
def gen_best(draw):
    d = g.size(draw, 4, 8, 30)
    n = g.size(draw, 8, 40, 300)
    Y = np.array(g.nearly_tied(draw, g.responses(draw, n)))
    scale = 10.0 ** g.pick(draw, 0, 0, -3, -9, -14, 6)
    return {'X': g.points(draw, n, d), 'Y': (Y * scale).tolist()}


@PROP.sub(gen_best, 4000, 40000, lambda c: len(c['X']) > 1, 'several points')
def best_of(c):
    """The best of a list of evaluated points or candidates is one with the smallest value."""
    from bayeso.utils import utils_bo
    X, Y = g.A(c['X']), g.A(c['Y'])
    i = min(range(len(X)), key=lambda j: (Y[j, 0], j))
    res = call(utils_bo.get_best_acquisition_by_history, X, Y)
    ensure(isinstance(res, tuple) and len(res) == 2, 'expected (point, value)')
    ensure(np.array_equal(ref.out(res[0], X[0].shape, 'best point'), X[i]), 'wrong best point')
    ensure(float(res[1]) == Y[i, 0], 'wrong best value')
    table = {}
    for x, y in zip(X.tolist(), Y[:, 0]):
        table.setdefault(tuple(x), y)
    f = lambda x: np.array([table[tuple(np.asarray(x).tolist())]])
    j = min(range(len(X)), key=lambda t: (table[tuple(X[t].tolist())], t))
    got = ref.out(call(utils_bo.get_best_acquisition_by_evaluation, X, f), (1, X.shape[1]), 'best')
    ensure(np.array_equal(got[0], X[j]), 'wrong best candidate by evaluation')

PROP.sub(g.huge(gen, 8), 200, 2000, None, 'one size of the case is beyond its ordinary maximum',
         name='minima_huge')(minima)

PROP.sub(g.huge(gen_time, 8), 200, 2000, None, 'one size of the case is beyond its ordinary maximum',
         name='times_huge')(times)

PROP.sub(g.huge(gen_best, 10), 100, 1000, None, 'one size of the case is beyond its ordinary maximum',
         name='best_of_huge')(best_of)

PROP.sub(g.related(gen), 500, 6000, None, 'the second call differs from the first',
         name='minima_again')(g.each(minima))
PROP.sub(g.related(gen_time), 300, 3600, None, 'the second call differs from the first',
         name='times_again')(g.each(times))
PROP.sub(g.related(gen_best), 300, 3600, None, 'the second call differs from the first',
         name='best_of_again')(g.each(best_of))
