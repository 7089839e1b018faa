"""C16: a repeated proposal is replaced by the best new candidate."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C16', 'Points already evaluated are not proposed again while a new one is available', [
    'Distances within a factor of two of the 1e-8 duplicate threshold are not generated.',
])


def gen_script(draw, d, k, steps):
    """Candidates and acquisitions for each step, with planted repeats."""
    r = g.rnd(draw)
    # also boxes far from the unit scale, where new points may be close to old ones
    f = g.pick(draw, 1.0, 1.0, 1.0, 1.0, 512.0, 4096.0, 1e-3)
    X = (r.randint(-3, 4, size=(k, d)) / 2.0) * f
    out = []
    for _ in range(steps):
        m = g.size(draw, 5, 30, 200)
        P = (r.randint(-3, 4, size=(m, d)) / 2.0 if r.rand() < 0.5 else r.rand(m, d) * 2 - 1) * f
        for i in range(m):
            if r.rand() < 0.5:
                P[i] = X[r.randint(len(X))]
                u = r.rand()
                if u < 0.25:
                    P[i] = P[i] + 3e-9 / np.sqrt(d) * r.choice([-1, 1], size=d)
                elif u < 0.4:
                    P[i] = P[i] + r.choice([5e-8, 1e-6, 1e-4]) * np.eye(d)[r.randint(d)]
        if r.rand() < 0.15:
            P[:] = X[r.randint(len(X), size=m)]
        acq = r.randint(-3, 3, size=m).astype(float) if r.rand() < 0.5 else r.randn(m) * 10
        u = r.rand()
        if u < 0.15:
            # differences in the last digits only, as of a late expected improvement
            acq = r.choice([0.0, -1.0, 40.0]) + r.randint(-9, 10, size=m) * r.choice([1e-9, 1e-13])
        elif u < 0.25:
            acq = -np.exp(-r.rand(m) * 600.0)
        if r.rand() < 0.1:
            acq[r.randint(m)] = np.inf
        i = int(np.argmin(acq))
        out.append({'P': P.tolist(), 'acq': [None if np.isinf(a) else float(a) for a in acq],
                    'next': P[i].tolist()})
    return X.tolist(), out


@g.strat
def gen(draw):
    d = g.size(draw, 4, 8, 20)
    X, script = gen_script(draw, d, g.size(draw, 5, 20, 150), 1)
    return {'X': X, 's': script[0]}


def model(X, P, acq):
    """First smallest acquisition among the candidates farther than 1e-8 from every point."""
    dist = np.linalg.norm(P[:, None, :] - X[None, :, :], axis=2).min(axis=1)
    keep = [i for i in range(len(P)) if dist[i] >= 1e-8]
    if not keep:
        return X[-1], 'none left'
    best = min(keep, key=lambda i: (acq[i], i))
    if np.isinf(acq[best]):
        return None, 'only infinite'
    return P[best], 'replaced'


@PROP.sub(gen, 12000, 150000, lambda c: len(c['s']['P']) > 1, 'several candidates')
def selection(c):
    from bayeso.utils import utils_bo
    X, P = g.A(c['X']), g.A(c['s']['P'])
    acq = np.array([np.inf if a is None else a for a in c['s']['acq']])
    want, kind = model(X, P, acq)
    if want is None:
        return {'nontrivial': False, 'labels': [kind]}
    before = (X.copy(), P.copy(), acq.copy())
    got = ref.out(call(utils_bo.get_next_best_acquisition, P, acq, X), (X.shape[1],), 'next point')
    for a, b in zip(before, (X, P, acq)):
        ensure(np.array_equal(a, b), 'an argument was modified')
    if kind == 'replaced':
        dist = np.linalg.norm(X - got, axis=1).min()
        ensure(dist >= 1e-8, 'an already evaluated point was chosen although a new one exists')
    ensure(np.array_equal(got, want), 'chose %s, expected %s (%s)', got, want, kind)
    return {'labels': [kind]}


@g.strat
def gen_loop(draw):
    d = g.size(draw, 3)
    steps = g.size(draw, 4, 6, 30)
    X, script = gen_script(draw, d, g.size(draw, 4, 40, 150, p_mid=25), steps)
    return {'X': X, 'script': script, 'wrapper': g.pick(draw, 'class', 'function'),
            'again': draw(st.integers(0, 3))}


@PROP.sub(gen_loop, 1600, 20000, lambda c: len(c['script']) > 1, 'several iterations')
def loop(c):
    """Both loop wrappers replace repeated proposals, with the surrogate scripted."""
    from bayeso import bo, wrappers
    X0 = g.A(c['X'])
    k, d = X0.shape
    R = np.tile(np.array([[-10.0, 10.0]]), (d, 1))
    state = {'i': 0, 'exp': [], 'rep': 0}

    class Scripted(bo.BO):
        def optimize(self, X_train, Y_train, **kwargs):
            s = c['script'][state['i']]
            state['i'] += 1
            P = g.A(s['P'])
            acq = np.array([np.inf if a is None else a for a in s['acq']])
            nxt = g.A(s['next'])
            # now and then propose a point that an earlier iteration evaluated
            if state['i'] > 1 and c['again'] and state['i'] % (c['again'] + 1) == 0:
                nxt = np.array(X_train[-1])
                P = np.vstack([P, nxt])
                acq = np.append(acq, np.min(acq) - 1.0)
            near = np.linalg.norm(X_train - nxt, axis=1).min()
            if near < 1e-8:
                want, kind = model(np.array(X_train), P, acq)
                state['rep'] += 1
            else:
                want, kind = nxt, 'new'
            state['exp'].append(want)
            info = {'next_points': P, 'acquisitions': acq, 'time_surrogate': 0.0, 'time_acq': 0.0}
            return nxt, info
    calls = []

    def fun(x):
        calls.append(np.array(x))
        return float(np.sum(x))
    Y0 = X0.sum(axis=1, keepdims=True)
    if any(all(a is None for a in s['acq']) for s in c['script']):
        return {'nontrivial': False}
    m = Scripted(R)
    try:
        if c['wrapper'] == 'class':
            b = wrappers.BayesianOptimization(R, fun, len(c['script']))
            b.model_bo = m
            res = b.optimize_with_all_initial_information(X0.copy(), Y0.copy())
        else:
            res = wrappers.run_single_round_with_all_initial_information(
                m, fun, X0.copy(), Y0.copy(), len(c['script']))
    except Exception:
        if any(e is None for e in state['exp']):
            return {'nontrivial': False, 'labels': ['only infinite acquisitions left']}
        raise
    X = ref.out(res[0], (k + len(c['script']), d), 'evaluated inputs')
    if any(e is None for e in state['exp']):
        return {'nontrivial': False}
    ensure(state['i'] == len(c['script']), 'the surrogate was optimised %d times', state['i'])
    for i, want in enumerate(state['exp']):
        ensure(np.array_equal(X[k + i], want), 'iteration %d evaluated %s, expected %s', i,
               X[k + i], want)
        ensure(np.array_equal(calls[i], want), 'iteration %d called the objective elsewhere', i)
    return {'labels': [c['wrapper'], f"repeats:{min(state['rep'], 3)}"],
            'nontrivial': state['rep'] > 0}

PROP.sub(g.huge(gen, 6), 200, 3000, None, 'one size of the case is beyond its ordinary maximum',
         name='selection_huge')(selection)
