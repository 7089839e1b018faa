"""C23: Thompson sampling evaluates the minimiser of a posterior draw."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Entropy, Prop, Violation, call, ensure
from vp.props import c15
from vp.props.c13 import in_box

PROP = Prop('C23', 'Thompson sampling evaluates the minimiser of a posterior function draw', [
    'The selection frequencies are compared with Monte-Carlo frequencies of the reference '
    'posterior by a two-sample chi-square test at p = 1e-9; all generators are seeded from the '
    'case.',
    'Responses are normalised or of moderate scale. The unbounded fit can still diverge (on a '
    'linear objective, say) to a covariance with a condition number beyond 1e9, from which the '
    'step may fail to draw; such cases are counted as trivial.',
])


def diverged(exc, X, Y, norm=True):
    """Whether the failure is that of drawing from a fit diverged to a singular covariance."""
    from bayeso.gp import gp_kernel
    text = str(exc)
    if 'jitter_cov' not in text and 'ingular' not in text and 'SVD' not in text:
        return False
    Y = np.reshape(Y, (-1, 1)).astype(float)
    X = np.reshape(X, (len(Y), -1)).astype(float)
    if norm and Y.max() > Y.min():
        Y = (Y - Y.min()) / (Y.max() - Y.min()) * 10.0
    try:
        h = gp_kernel.get_optimized_kernel(X, Y, None, 'matern52', str_optimizer_method='BFGS')[2]
    except (np.linalg.LinAlgError, ValueError):
        return True
    return ref.cond(ref.train_cov('matern52', X, h)) > 1e9


DIVERGED = {'nontrivial': False, 'labels': ['fit diverged']}


def data(draw, d, n):
    R = g.ranges(draw, d, degenerate=False, wide=False)
    A = np.array(R)
    X = g.points(draw, n, d, lo=A[:, 0], hi=A[:, 1])
    if g.chance(draw, 70):
        Z = (np.array(X) - A[:, 0]) / (A[:, 1] - A[:, 0])
        t = g.pick(draw, 0.2, 0.5, 0.8)
        Y = (np.abs(Z - t).sum(axis=1, keepdims=True) * g.pick(draw, 1.0, 5.0)
             + 0.05 * g.rnd(draw).randn(n, 1)).round(4).tolist()
    else:
        Y = [[float(v)] for v in np.round(g.rnd(draw).randn(n) * 2, 3)]
    return R, X, Y


@g.strat
def gen_freq(draw):
    d = g.pick(draw, 1, 1, 2)
    n = g.size(draw, 8, 20, 50, p_mid=35, p_big=12, low=2)
    R, X, Y = data(draw, d, n)
    return {'range': R, 'X': X, 'Y': Y, 'norm': g.chance(draw, 60),
            'k': g.pick(draw, 4, 6, 9, 25) if d == 1 else g.pick(draw, 2, 3, 5), 'reps': 160,
            's': draw(st.integers(0, 2**20))}


def grid(R, k):
    axes = [np.linspace(a, b, k) for a, b in R]
    return np.stack([m.ravel() for m in np.meshgrid(*axes, indexing='ij')], axis=1)


@PROP.sub(gen_freq, 56, 1200, None,
          'every case repeats one step 160 times and compares the selection frequencies')
def frequencies(c):
    from bayeso import thompson_sampling as ts
    from bayeso.gp import gp
    R, X, Y = g.A(c['range']), g.A(c['X']), g.A(c['Y'])
    P = grid(R, c['k'])
    lo, hi = Y.min(), Y.max()
    Yn = (Y - lo) / (hi - lo) * 10.0 if c['norm'] and hi > lo else Y
    try:
        mu, _, S = gp.predict_with_optimized_hyps(X, Yn, P, str_cov='matern52',
                                                  str_optimizer_method='BFGS')
    except (np.linalg.LinAlgError, ValueError) as exc:
        if c['norm']:
            call(gp.predict_with_optimized_hyps, X, Yn, P, str_cov='matern52',
                 str_optimizer_method='BFGS')
        return {'nontrivial': False, 'labels': ['fit diverged: ' + type(exc).__name__]}
    m = len(P)
    counts = np.zeros(m)
    width = np.maximum(R[:, 1] - R[:, 0], 1e-12)
    with Entropy(c['s']):
        for i in range(c['reps']):
            x = ref.out(call(ts.thompson_sampling_gp_iteration, R.copy(), X.copy(), Y.copy(),
                             normalize_Y=c['norm'], str_sampling_method='grid',
                             num_samples=c['k']), (len(R),), 'next point')
            dist = np.max(np.abs(P - x) / width, axis=1)
            j = int(np.argmin(dist))
            ensure(dist[j] < 1e-9, 'next point %s is not one of the candidates', x)
            counts[j] += 1
            if i == 39 and (counts > 0).sum() == 1 and c['reps'] > 40:
                # nearly determined: 40 repetitions settle it
                if argmin_freq(mu[:, 0], S, m, 4000).max() > 0.999:
                    break
    jitters = [0.0]
    w = np.linalg.eigvalsh((S + S.T) / 2)
    if w[0] < 1e-10 * max(w[-1], 1e-300):
        jitters += [1e-4, 1e-2]
    worst = None
    for jit in jitters:
        f = argmin_freq(mu[:, 0], S + jit * np.eye(m), m, 40000)
        p = compare(counts, f * 40000)
        worst = p if worst is None else max(worst, p)
        if p > 1e-9:
            break
    if worst <= 1e-9:
        ensure(False, 'selection counts %s over candidates, a posterior draw is minimised there '
               'with frequencies %s (p = %.2g)', counts.astype(int).tolist(),
               np.round(f, 3).tolist(), worst)
    spread = argmin_freq(mu[:, 0], S, m, 2000).max()
    return {'labels': ['spread' if spread < 0.9 else 'concentrated', f'd={len(R)}']}


def argmin_freq(mu, S, m, num):
    w, V = np.linalg.eigh((S + S.T) / 2)
    L = V * np.sqrt(np.maximum(w, 0.0))
    r = np.random.Generator(np.random.PCG64(12345))
    F = mu[None, :] + r.standard_normal((num, m)) @ L.T
    return np.bincount(np.argmin(F, axis=1), minlength=m) / num


def compare(a, b):
    """Two-sample chi-square over pooled cells."""
    order = np.argsort(-(b + a))
    A, B = [], []
    for i in order:
        if A and (b[i] + a[i]) / (b.sum() + a.sum()) * a.sum() < 4:
            A[-1] += a[i]
            B[-1] += b[i]
        else:
            A.append(a[i])
            B.append(b[i])
    if len(A) < 2:
        return 1.0
    A, B = np.array(A), np.array(B)
    tot = A + B
    ea = tot * A.sum() / tot.sum()
    eb = tot * B.sum() / tot.sum()
    stat = np.sum((A - ea) ** 2 / ea) + np.sum((B - eb) ** 2 / eb)
    return float(ss.chi2.sf(stat, len(A) - 1))


@g.strat
def gen_box(draw):
    d = g.size(draw, 4, 6)
    R, X, Y = data(draw, d, g.size(draw, 8, 20, 70, p_big=2))
    s = g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton', 'grid')
    k = g.size(draw, 12, 60) if s != 'grid' else g.size(draw, {1: 8, 2: 4}.get(d, 2))
    return {'range': R, 'X': X, 'Y': Y, 'norm': True, 'sampling': s, 'num': k,
            'debug': g.chance(draw, 10)}


@PROP.sub(gen_box, 600, 10000, lambda c: c['num'] > 1 and len(c['X']) > 1,
          'several candidates and several observations')
def in_the_box(c):
    from bayeso import thompson_sampling as ts
    R, X, Y = g.A(c['range']), g.A(c['X']), g.A(c['Y'])
    try:
        x = call(ts.thompson_sampling_gp_iteration, R, X, Y, normalize_Y=c['norm'],
                 str_sampling_method=c['sampling'], num_samples=c['num'], debug=c['debug'])
    except Violation as exc:
        if diverged(exc, X, Y, c['norm']):
            return DIVERGED
        raise
    x = ref.out(x, (len(R),), 'next point')
    in_box(x[None, :], R, 'next point')
    if c['sampling'] == 'grid':
        P = grid(R, c['num'])
        w = R[:, 1] - R[:, 0]
        ensure(np.min(np.max(np.abs(P - x) / w, axis=1)) < 1e-9, 'next point %s is not on the grid',
               x)
    return {'labels': [c['sampling']]}


@g.strat
def gen_loop(draw):
    d = g.size(draw, 3)
    R = g.ranges(draw, d, degenerate=False, wide=False)
    c = {'range': R, 'num_init': g.size(draw, 5), 'num_iter': draw(st.integers(0, 5)),
         'norm': True, 'sampling': g.pick(draw, 'uniform', 'sobol', 'gaussian', 'halton'),
         'num': g.size(draw, 10, 60), 'sleep': False,
         'fun': g.pick(draw, 'sphere', 'linear', 'const', 'steps', 'nasty'),
         'ret': g.pick(draw, 'float', 'npfloat', 'arr1', 'arr11', 'int')}
    if c['ret'] == 'int':
        c['fun'] = 'steps'
    return c


@PROP.sub(gen_loop, 240, 4000, lambda c: c['num_iter'] > 0 and c['num_init'] > 1,
          'several initial points and at least one iteration')
def loop(c):
    from bayeso import thompson_sampling as ts
    R = g.A(c['range'])
    d, k, it = len(R), c['num_init'], c['num_iter']
    obj = c15.Objective(c)
    try:
        res = call(ts.thompson_sampling_gp, R.copy(), obj, k, it, normalize_Y=c['norm'],
                   str_sampling_method=c['sampling'], num_samples=c['num'])
    except Violation as exc:
        if len(obj.calls) >= k and diverged(exc, obj.calls, obj.values, c['norm']):
            return DIVERGED
        raise
    ensure(isinstance(res, tuple) and len(res) == 2, 'expected inputs and responses')
    X = ref.out(res[0], (k + it, d), 'inputs')
    Y = ref.out(res[1], (k + it, 1), 'responses')
    in_box(X, R, 'evaluated points')
    ensure(len(obj.calls) == k + it, 'the objective was called %d times, expected %d',
           len(obj.calls), k + it)
    for i, x in enumerate(obj.calls):
        ensure(x.shape == (d,), 'the objective received shape %s', x.shape)
        ensure(np.array_equal(x, X[i]), 'evaluation %d was at %s, reported %s', i, x, X[i])
        ensure(obj.values[i] == Y[i, 0], 'evaluation %d returned %r, reported %r', i,
               obj.values[i], float(Y[i, 0]))
    return {'labels': [c['sampling'], c['fun'], c['ret']]}


@g.strat
def gen_steps(draw):
    d = g.size(draw, 3)
    c = {'range': g.ranges(draw, d, degenerate=False, wide=False),
         'num_init': g.size(draw, 5, 25, 70, p_mid=15, p_big=6),
         'num_iter': g.size(draw, 5, 16, p_mid=8), 'norm': g.chance(draw, 80),
         'num': g.pick(draw, None, 1, 2, 5, 12, 40, 300), 'sleep': False,
         'sampling': g.pick(draw, None, 'uniform', 'sobol', 'gaussian', 'halton'),
         'fun': g.pick(draw, 'sphere', 'linear', 'steps'), 'ret': 'float',
         'e': draw(st.integers(0, 2**20))}
    return c


@PROP.sub(gen_steps, 160, 3000, lambda c: c['num_iter'] > 1 and c['num_init'] > 1,
          'several initial points and several iterations')
def loop_is_the_step_repeated(c):
    """The loop with some settings is the step with the same settings, again and again."""
    from bayeso import bo
    from bayeso import thompson_sampling as ts
    R = g.A(c['range'])
    k, it = c['num_init'], c['num_iter']
    kw = {'normalize_Y': c['norm']}
    if c['num'] is not None:
        kw['num_samples'] = c['num']
    if c['sampling'] is not None:
        kw['str_sampling_method'] = c['sampling']

    def steps(obj):
        X = call(call(bo.BOwGP, R.copy()).get_initials, c['sampling'] or 'uniform', k)
        Y = np.array([[obj(x)] for x in X])
        for _ in range(it):
            x = call(ts.thompson_sampling_gp_iteration, R.copy(), X.copy(), Y.copy(),
                     **dict({'str_sampling_method': 'uniform'}, **kw))
            X = np.vstack((X, x))
            Y = np.vstack((Y, [[obj(x)]]))
        return X, Y

    out = []
    for _ in range(2):
        with Entropy(c['e']):
            obj = c15.Objective(c)
            try:
                out.append(steps(obj))
            except Violation as exc:
                if len(obj.calls) < k or not diverged(exc, obj.calls, obj.values, c['norm']):
                    raise
                return {'nontrivial': False, 'labels': ['fit diverged: ' + type(exc).__name__]}
    X, Y = out[0]
    if not np.array_equal(X, out[1][0]):
        return {'nontrivial': False, 'labels': ['not reproducible']}
    with Entropy(c['e']):
        res = call(ts.thompson_sampling_gp, R.copy(), c15.Objective(c), k, it, **kw)
    got = ref.out(res[0], X.shape, 'evaluated inputs')
    ensure(np.array_equal(got, X),
           'the loop and the same steps by hand differ: %s and %s', got, X)
    ensure(np.array_equal(ref.out(res[1], Y.shape, 'responses'), Y),
           'the loop reports other responses than the same steps by hand')
    return {'labels': [c['sampling'] or 'default design',
                       'default number' if c['num'] is None else f"{c['num']} candidates"]}
