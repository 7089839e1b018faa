"""C29: seeded calls are reproducible and independent of the global random state."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Entropy, Prop, call, ensure
from vp.props import c14

PROP = Prop('C29', 'Seeded designs and proposals are reproducible', [
    'CMA-ES seeds itself from the clock (behaviour of the cma package), so CMA-ES proposals are '
    'not covered; forests are drawn from the global generator, so for forests the candidates '
    'are covered and the fitted trees are not.',
])
METHODS = ['uniform', 'gaussian', 'sobol', 'halton', 'grid']


def state():
    s = np.random.get_state()
    return s[0], s[1].copy(), s[2], s[3], s[4]


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


@g.strat
def gen(draw):
    d = g.dims(draw)
    s1 = draw(st.integers(0, 2**32 - 1))
    return {'range': g.ranges(draw, d), 'kind': g.pick(draw, 'gp', 'tp', 'rf'),
            'method': g.pick(draw, *METHODS), 'num': g.size(draw, 8, 30) if d < 4 else 2,
            'initial': g.chance(draw, 50), 'seed': s1,
            'other': draw(st.integers(0, 2**32 - 1).filter(lambda v: v != s1)),
            'e': draw(st.integers(0, 999)), 'before': g.size(draw, 3)}


def maker(kind):
    from bayeso import bo
    return {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': bo.BOwTrees}[kind]


def sample(c, model, seed):
    if c['initial'] and c['method'] != 'grid':
        return call(model.get_initials, c['method'], c['num'], seed=seed)
    return call(model.get_samples, c['method'], num_samples=c['num'], seed=seed)


@PROP.sub(gen, 6000, 60000, lambda c: c['method'] != 'grid' and c['num'] > 1,
          'a random design of several points')
def designs(c):
    R = g.A(c['range'])
    d = len(R)
    n = c['num'] ** d if c['method'] == 'grid' else c['num']
    model = call(maker(c['kind']), R.copy())
    with Entropy(c['e']):
        before = state()
        P = ref.out(sample(c, model, c['seed']), (n, d), 'design').copy()
        ensure(same_state(before, state()), 'a seeded call changed the global generator')
    with Entropy(c['e'] + 1234):
        for _ in range(c['before']):
            sample(c, model, None)
            np.random.rand()
        sample(c, model, c['other'])
        Q = ref.out(sample(c, model, c['seed']), (n, d), 'design').copy()
        ensure(np.array_equal(P, Q), 'the same seed gave different designs')
        T = ref.out(sample(c, call(maker(c['kind']), R.copy()), c['seed']), (n, d), 'design')
        ensure(np.array_equal(P, T), 'the same seed gave different designs in a new object')
        free = R[:, 1] > R[:, 0]
        if c['method'] != 'grid' and free.sum() * n >= 6:
            U = sample(c, model, c['other'])
            ensure(not np.array_equal(P, U), 'different seeds gave the same design')
            V = sample(c, model, None)
            W = sample(c, model, None)
            ensure(not np.array_equal(V, W), 'two unseeded designs are identical')
    return {'labels': [c['method'], c['kind'], 'initial' if c['initial'] else 'candidates']}


@g.strat
def gen_many(draw):
    return {'method': g.pick(draw, 'uniform', 'gaussian', 'sobol', 'halton'),
            'kind': g.pick(draw, 'gp', 'tp', 'rf'), 'initial': g.chance(draw, 50), 'num': 4,
            'start': draw(st.one_of(st.integers(0, 2**32 - 1), st.integers(0, 5000))),
            'count': draw(st.integers(300, 2500)), 'r': draw(st.integers(0, 2**31))}


@PROP.sub(gen_many, 80, 800, lambda c: True,
          'hundreds of different seeds of one design are compared with one another')
def seeds_differ(c):
    """No two of many seeds (consecutive, apart by powers, and spread out) share a design."""
    r = np.random.RandomState(c['r'])
    seeds = [c['start'] + i for i in range(c['count'] // 4)]
    seeds += [c['start'] + b**k for b in (2, 3, 10) for k in range(32)]
    seeds += [int(v) for v in r.randint(0, 2**32 - 1, size=c['count'], dtype=np.int64)]
    seeds = sorted({s % 2**32 for s in seeds})
    model = call(maker(c['kind']), np.array([[0.0, 1.0], [-2.0, 3.0]]))
    seen = {}
    for s in seeds:
        P = ref.out(sample(c, model, s), (c['num'], 2), 'design')
        key = P.tobytes()
        ensure(key not in seen, 'seeds %s and %s gave the same %s design', seen.get(key), s,
               c['method'])
        seen[key] = s
    return {'labels': [c['method'], c['kind'], 'initial' if c['initial'] else 'candidates']}


@g.strat
def gen_step(draw):
    c = c14.gen_case(draw, kinds=('gp', 'tp', 'rf'), cma=False, max_num=5)
    if c['kind'] == 'rf':
        c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton', 'gaussian')
    c['e'] = draw(st.integers(0, 999))
    return c


@PROP.sub(gen_step, 320, 6000, lambda c: len(c['X']) > 1 and c['num'] > 1,
          'several observations and several starting points')
def proposals(c):
    R, X, Y = g.A(c['range']), g.A(c['X']), g.A(c['Y'])
    outs = []
    for k in range(2):
        with Entropy(c['e'] + 77 * k):
            bo = c14.make(c)
            if k:
                np.random.rand(5)
            before = state()
            res = c14.run_step(c, bo, X.copy(), Y.copy())
            if res is None:
                return {'nontrivial': False, 'labels': ['fit diverged']}
            if c['kind'] != 'rf':
                ensure(same_state(before, state()),
                       'a seeded proposal changed the global generator')
            outs.append(res)
    (x1, i1), (x2, i2) = outs
    ensure(np.array_equal(i1['next_points'], i2['next_points']), 'same seed, other candidates')
    if c['kind'] != 'rf':
        ensure(np.array_equal(x1, x2), 'same seed and data, next points %s and %s', x1, x2)
        ensure(np.array_equal(i1['acquisitions'], i2['acquisitions']),
               'same seed and data, other acquisitions')
        for k, v in i1['hyps'].items():
            ensure(np.array_equal(v, i2['hyps'][k]), 'same data, other %s', k)
    else:
        with Entropy(c['e'] + 77):
            bo = c14.make(c)
            np.random.rand(5)
            x3, i3 = c14.run_step(c, bo, X.copy(), Y.copy())
        ensure(np.array_equal(x2, x3) and np.array_equal(i2['acquisitions'], i3['acquisitions']),
               'same seed and same global random state, other proposal')
    return {'labels': [c['kind'], c['sampling']]}


@g.strat
def gen_used(draw):
    c = c14.gen_case(draw, kinds=('gp', 'gp', 'tp', 'rf'), cma=False, max_num=3)
    if c['kind'] == 'rf':
        c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton', 'gaussian')
    if c['kind'] == 'gp':
        c['mlm'] = g.pick(draw, 'regular', 'regular', 'converged', 'combined')
    c['e'] = draw(st.integers(0, 999))
    c['earlier'] = draw(st.integers(1, 3 if c.get('mlm') == 'combined' else 8))
    c['same'] = g.chance(draw, 40)
    return c


@PROP.sub(gen_used, 200, 4000, lambda c: c['earlier'] > 1 and len(c['X']) > 2,
          'several earlier proposals')
def used_objects(c):
    """An object that has proposed before proposes like a new one."""
    R, X, Y = g.A(c['range']), g.A(c['X']), g.A(c['Y'])
    outs = []
    for used in (0, 1):
        bo = c14.make(c)
        with Entropy(c['e'] + 5):
            for k in range(c['earlier'] * used):
                n = len(X) if c['same'] else max(1, (len(X) * (k + 1)) // (c['earlier'] + 1))
                if c14.run_step(c, bo, X[:n].copy(), Y[:n].copy()) is None:
                    return {'nontrivial': False, 'labels': ['fit diverged']}
        with Entropy(c['e']):
            res = c14.run_step(c, bo, X.copy(), Y.copy())
        if res is None:
            return {'nontrivial': False, 'labels': ['fit diverged']}
        outs.append(res)
    (x1, i1), (x2, i2) = outs
    # (the lengthscales of a 'converged' object depend on its history, as documented)
    if c.get('mlm') != 'converged':
        ensure(np.array_equal(i1['next_points'], i2['next_points']),
               'same seed, other candidates after %d earlier proposals', c['earlier'])
        ensure(np.array_equal(x1, x2), 'same seed and data, next points %s and %s', x1, x2)
        ensure(np.array_equal(i1['acquisitions'], i2['acquisitions']),
               'same seed and data, other acquisitions')
    return {'labels': [c['kind'], c.get('mlm', '')]}
