"""C28: one proposal step of forest-based optimisation."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props import c12, c14, c18, c19
from vp.props.c13 import in_box

PROP = Prop('C28', 'Forest proposals are the best sampled candidate under the stated acquisition', [
    'Reported forests are inspected as returned by the proposal step.',
])


def gen_case(draw):
    c = c14.gen_case(draw, kinds=('rf',), cma=False, max_n=12)
    if g.chance(draw, 5):
        # a long history
        d = len(c['range'])
        A = np.array(c['range'])
        n = draw(st.integers(51, 140))
        c['X'] = g.points(draw, n, d, lo=A[:, 0], hi=A[:, 1])
        c['Y'] = g.responses(draw, n, scale=False)
    c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton', 'gaussian', 'grid')
    d = len(c['range'])
    c['num'] = g.size(draw, 30, 100) if c['sampling'] != 'grid' else \
        g.size(draw, {1: 20, 2: 8, 3: 4}.get(d, 2))
    return c


@g.strat
def gen(draw):
    return gen_case(draw)


def rows_of(t, out):
    if isinstance(t, dict):
        rows_of(t['left'], out)
        rows_of(t['right'], out)
    else:
        out.extend(c18.leaf_rows(t))


def depth_of(t):
    return 1 + max(depth_of(t['left']), depth_of(t['right'])) if isinstance(t, dict) else 0


@PROP.sub(gen, 640, 10000, lambda c: len(c['X']) > 1 and c['num'] > 1,
          'several observations and several candidates')
def step(c):
    X, Y, R = g.A(c['X']), g.A(c['Y']), g.A(c['range'])
    d, n = len(R), len(X)
    bo = c14.make(c)
    c14.warm_up(c, bo, X, Y)
    res = call(bo.optimize, X, Y, **c14.step_args(c))
    ensure(isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], dict),
           'expected (next point, information)')
    x, info = ref.out(res[0], (d,), 'next point'), res[1]
    for k in ('next_points', 'acquisitions', 'Y_original', 'Y_normalized', 'trees',
              'time_surrogate', 'time_acq', 'time_overall'):
        ensure(k in info, 'information has no %s', k)
    m = c['num'] ** d if c['sampling'] == 'grid' else c['num']
    P = ref.out(info['next_points'], (m, d), 'candidates')
    acq = ref.out(info['acquisitions'], (m,), 'acquisitions')
    in_box(P, R, 'candidates')
    ensure(np.all(x >= R[:, 0]) and np.all(x <= R[:, 1]), 'next point outside the box')
    S = call(bo.get_samples, c['sampling'], num_samples=c['num'], seed=c['seed'])
    ensure(np.array_equal(np.sort(P, axis=0), np.sort(S, axis=0)),
           'the candidates are not the sampled points')
    ensure(np.array_equal(info['Y_original'], Y), 'original responses are not reported unchanged')
    Yn = ref.out(info['Y_normalized'], (n, 1), 'normalised responses')
    want = c14.scaled(Y, c)
    ref.close(Yn, want, 1e-10 * (1 + np.abs(want)), 'responses used for fitting')
    trees = info['trees']
    ensure(isinstance(trees, list) and len(trees) == 100, 'expected 100 trees')
    data = {(tuple(a), b[0]) for a, b in zip(X.tolist(), Yn.tolist())}
    seen = set()
    for t in trees:
        rows = []
        rows_of(t, rows)
        seen |= set(rows)
        ensure(set(rows) <= data, 'a tree was not built from the (normalised) training data')
        ensure(depth_of(t) <= 5, 'a tree is deeper than 5')
    # a bootstrap sample misses an observation with probability about 1/e, all 100 never do
    ensure(seen == data, '%d of %d observations are in no tree of the forest',
           len(data) - len(seen), len(data))
    mu, var = c19.reference(trees, P)
    mu, var = mu[:, 0], var[:, 0]
    tm = 1e-9 * (1 + np.abs(mu))
    tv = 1e-9 * var + 1e-11 * (1 + np.abs(mu)) ** 2
    mid, lo, hi = c14.acq_interval(c, mu, var, tm, tv, Yn, 1e-2)
    got = -acq / 10.0
    bad = (got < lo) | (got > hi)
    if bad.any():
        i = int(np.argmax(bad))
        ensure(False, 'acquisition %s at %s is %r, the forest gives %r', c['acq'], P[i].tolist(),
               float(got[i]), float(mid[i]))
    i = np.flatnonzero(np.all(P == x, axis=1))
    ensure(len(i) > 0, 'the next point is not one of the candidates')
    ensure(acq[i].min() <= acq.min() + 1e-12 * abs(acq.min()),
           'the next point has acquisition %r, another candidate has %r', -acq[i].min() / 10,
           -acq.min() / 10)
    t = [float(ref.out(info[k], (), k)) for k in ('time_surrogate', 'time_acq', 'time_overall')]
    ensure(min(t) >= 0 and t[0] + t[1] <= t[2] + 1e-3, 'inconsistent times %s', t)
    a2 = ref.out(call(bo.compute_acquisitions, P, X, Yn, trees), (m,), 'recomputed acquisitions')
    ref.close(a2, -acq, 1e-9 * (1e-6 + np.abs(acq)), 'recomputed acquisitions')
    pm, ps = call(bo.compute_posteriors, P, trees)
    ref.close(ref.out(pm, (m,), 'mean'), mu, tm, 'predicted mean')
    ref.close(ref.out(ps, (m,), 'std') ** 2, var, tv, 'predicted variance')
    return {'labels': [c['acq'], c['sampling'], 'normalised' if c['norm'] else 'raw']}


@g.strat
def gen_big(draw):
    c = gen_case(draw)
    c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton')
    c['num'] = g.pick(draw, 101, 128, 250, 512)
    c['pick'] = draw(st.integers(0, 10**6))
    return c


@PROP.sub(gen_big, 24, 300, None, 'more candidates than one prediction chunk holds')
def many_candidates(c):
    """Same agreement when candidate evaluation is spread over processes."""
    return step(c)
