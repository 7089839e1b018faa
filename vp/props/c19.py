"""C19: forest prediction is the leaf average with total variance, for any batch size."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C19', 'Forest predictions are leaf means with total variance, in input order', [])


def random_tree(r, d, depth, grid):
    def leaf():
        k = r.randint(1, 5)
        return [[(r.randint(-4, 5, size=d) / 2.0).tolist(), [float(np.round(r.randn() * 3, 3))]]
                for _ in range(k)]

    def side(level):
        if level >= depth or r.rand() < 0.3:
            return leaf()
        return node(level + 1)

    def node(level):
        v = r.randint(-4, 5) / 2.0 if grid else float(np.round(r.randn(), 3))
        return {'index': int(r.randint(d)), 'value': v, 'left': side(level), 'right': side(level)}
    return node(1)


@g.strat
def gen(draw):
    d = g.size(draw, 4, 8, 20)
    r = g.rnd(draw)
    grid = g.chance(draw, 60)
    trees = [random_tree(r, d, g.size(draw, 4), grid) for _ in range(g.size(draw, 4, 9, 150, p_big=2))]
    q = g.size(draw, 8, 100)
    P = r.randint(-5, 6, size=(q, d)) / 2.0 if grid else r.randn(q, d).round(3)
    return {'trees': trees, 'P': P.tolist(), 'shift': g.pick(draw, 0.0, 0.0, 1000.0, -1e5)}


def to_tree(t, shift=0.0):
    if isinstance(t, list):
        return [(np.array(x), np.array([y[0] + shift])) for x, y in t]
    return {'index': t['index'], 'value': np.float64(t['value']),
            'left': to_tree(t['left'], shift), 'right': to_tree(t['right'], shift)}


def reference(trees, P):
    mu, var = [], []
    for x in P:
        ms, vs = [], []
        for t in trees:
            node = t
            while isinstance(node, dict):
                node = node['left'] if x[node['index']] < node['value'] else node['right']
            ys = [float(np.asarray(y).ravel()[0]) for _, y in node]
            m = sum(ys) / len(ys)
            ms.append(m)
            vs.append(sum((y - m) ** 2 for y in ys) / len(ys))
        M = sum(ms) / len(ms)
        mu.append(M)
        var.append(sum(vs) / len(vs) + sum((m - M) ** 2 for m in ms) / len(ms))
    return np.array(mu)[:, None], np.array(var)[:, None]


def compare(res, trees, P, name):
    ensure(isinstance(res, tuple) and len(res) == 2, 'expected mean and standard deviation')
    mu = ref.out(res[0], (len(P), 1), name + ' mean')
    sd = ref.out(res[1], (len(P), 1), name + ' standard deviation')
    wm, wv = reference(trees, P)
    ref.close(mu, wm, 1e-10 * (1 + np.abs(wm)), name + ': mean')
    ensure(np.all(sd >= 0), '%s: negative standard deviation', name)
    ref.close(sd ** 2, wv, 1e-9 * wv + 1e-12 * (1 + np.abs(wm)) ** 2 + 1e-12, name + ': variance')
    return mu, sd


@PROP.sub(gen, 5000, 60000, lambda c: len(c['trees']) > 1 and len(c['P']) > 1,
          'several trees and several points')
def prediction(c):
    from bayeso.trees import trees_common as tc
    trees = [to_tree(t, c['shift']) for t in c['trees']]
    P = g.A(c['P'])
    mu, sd = compare(call(tc.predict_by_trees, P, trees), trees, P, 'forest prediction')
    ys = [float(y[0]) for t in trees for y in outputs(t)]
    ensure(np.all(mu >= min(ys) - 1e-9 * (1 + abs(min(ys)))) and
           np.all(mu <= max(ys) + 1e-9 * (1 + abs(max(ys)))), 'mean outside the leaf responses')
    m2, s2 = call(tc.predict_by_trees, P[::-1].copy(), trees[::-1])
    ref.close(m2[::-1], mu, 1e-10 * (1 + np.abs(mu)), 'mean after reordering points and trees')
    ref.close(s2[::-1] ** 2, sd ** 2, 1e-10 * (1 + sd ** 2) + 1e-12 * mu ** 2,
              'variance after reordering')
    one = call(tc.predict_by_trees, P[:1], trees)
    ref.close(one[0][0, 0], mu[0, 0], 1e-12 * (1 + abs(mu[0, 0])), 'mean of a single point')


def outputs(t):
    if isinstance(t, dict):
        return outputs(t['left']) + outputs(t['right'])
    return [y for _, y in t]


@g.strat
def gen_big(draw):
    d = g.size(draw, 3)
    r = g.rnd(draw)
    q = g.pick(draw, 101, 100, 150, 199, 200, 201, 250, 333, 512, 1000)
    return {'trees': [random_tree(r, d, 4, True) for _ in range(g.size(draw, 3))], 'd': d, 'q': q,
            'seed': draw(st.integers(0, 2**31 - 1)), 'grid': g.chance(draw, 50)}


@PROP.sub(gen_big, 48, 600, lambda c: c['q'] > 100, 'more rows than one chunk holds')
def large_batches(c):
    """Batches that are split over processes give every row its own prediction."""
    from bayeso.trees import trees_common as tc
    trees = [to_tree(t) for t in c['trees']]
    r = np.random.RandomState(c['seed'])
    P = r.randint(-5, 6, size=(c['q'], c['d'])) / 2.0 if c['grid'] else r.randn(c['q'], c['d'])
    compare(call(tc.predict_by_trees, P, trees), trees, P, f"prediction of {c['q']} rows")


@g.strat
def gen_fit(draw):
    d = g.size(draw, 4)
    n = g.size(draw, 12, 40)
    X = g.points(draw, n, d)
    return {'X': X, 'Y': g.responses(draw, n, scale=False), 'seed': draw(st.integers(0, 10**6)),
            'trees': g.size(draw, 4, 10, 110, p_big=1), 'depth': g.size(draw, 5), 'leaf': g.size(draw, 3),
            'own': g.chance(draw, 50), 'P': g.points(draw, g.size(draw, 6, 30), d)}


@PROP.sub(gen_fit, 1500, 20000, lambda c: len(c['X']) > 2, 'three observations')
def fitted(c):
    """Predictions of fitted forests, also at the training inputs themselves."""
    from bayeso import trees as tr
    from bayeso.trees import trees_common as tc
    X, Y = g.A(c['X']), g.A(c['Y'])
    P = X if c['own'] else g.A(c['P'])
    trees = call(tr.get_random_forest, X, Y, c['trees'], c['depth'], c['leaf'], X.shape[1])
    mu, _ = compare(call(tc.predict_by_trees, P, trees), trees, P, 'fitted forest')
    ensure(np.all(mu >= Y.min() - 1e-9 * (1 + abs(Y.min())))
           and np.all(mu <= Y.max() + 1e-9 * (1 + abs(Y.max()))), 'mean outside the responses')


@g.strat
def gen_sigma(draw):
    k = g.size(draw, 8, 60)
    r = g.rnd(draw)
    return {'mu': (r.randn(k) * 10.0 ** r.randint(-2, 3)).round(4).tolist(),
            's': np.abs(r.randn(k) * 10.0 ** r.randint(-3, 2)).round(4).tolist(),
            'min': g.pick(draw, None, 0.0, 0.1, 1.0, 1e-6)}


@PROP.sub(gen_sigma, 4000, 40000, lambda c: len(c['mu']) > 1, 'several trees')
def total_variance(c):
    from bayeso.trees import trees_common as tc
    m, s = g.A(c['mu']), g.A(c['s'])
    kw = {} if c['min'] is None else {'min_sigma': c['min']}
    got = ref.out(call(tc.compute_sigma, m, s, **kw), (), 'standard deviation')
    s2 = np.maximum(s, c['min'] or 0.0)
    want = np.mean(s2 ** 2) + np.var(m)
    ref.close(got ** 2, want, 1e-9 * want + 1e-12 * np.max(m ** 2) + 1e-14, 'total variance')

PROP.sub(g.huge(gen, 4), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='prediction_huge')(prediction)

PROP.sub(g.related(gen), 300, 3600, None, 'the second call differs from the first',
         name='prediction_again')(g.each(prediction))
