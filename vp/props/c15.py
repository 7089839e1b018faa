"""C15: optimisation loops evaluate exactly the reported history."""
import time

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props import c14

PROP = Prop('C15', 'Optimisation runs report exactly the evaluations they made', [
    'Objectives are deterministic test functions that record every call they receive.',
])


@g.strat
def gen(draw):
    c = c14.gen_case(draw, kinds=('gp', 'gp', 'tp', 'rf'), cma=g.chance(draw, 20), max_num=4)
    # loops run on normalised responses or bounded fits, which cannot diverge
    if c['kind'] == 'gp':
        c['norm'] = True
        c['crit'] = 'ml'
        c['mlm'] = g.pick(draw, 'regular', 'regular', 'combined', 'converged')
        c['fit'] = g.pick(draw, 'BFGS', 'L-BFGS-B', 'SLSQP-Bounded')
        if c['mlm'] == 'converged':
            c['fit'] = g.pick(draw, 'L-BFGS-B', 'SLSQP-Bounded')
        c['prior'] = 'none'
    if c['kind'] == 'rf':
        c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton', 'gaussian')
        c['num'] = g.size(draw, 6, 40)
    d = len(c['range'])
    k = g.size(draw, 4, 7)
    A = np.array(c['range'])
    c.update(entry=g.pick(draw, 'seeded', 'inputs', 'all'),
             wrapper='class' if c['kind'] != 'gp' else g.pick(draw, 'class', 'class', 'function'),
             X=g.points(draw, k, d, lo=A[:, 0], hi=A[:, 1]), num_iter=g.size(draw, 4),
             init=g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton'),
             seed=g.pick(draw, None, draw(st.integers(0, 2**31 - 1))),
             fun=g.pick(draw, 'sphere', 'linear', 'const', 'steps', 'nasty'),
             ret=g.pick(draw, 'float', 'npfloat', 'arr1', 'arr11', 'arr0', 'float32', 'int',
                        'mixed', 'mixed'),
             sleep=g.chance(draw, 15), rounds=2 if g.chance(draw, 15) else 1)
    if c['ret'] == 'int':
        c['fun'] = 'steps'
    if c['ret'] == 'mixed':
        c['fun'] = g.pick(draw, 'halves', 'halves', 'spike')
    return c


class Objective:
    def __init__(self, c):
        self.c = c
        self.calls = []
        self.values = []
        self.slept = []
        self.count = 0

    def value(self, x):
        f = self.c['fun']
        R = g.A(self.c['range'])
        z = (np.asarray(x, float) - R[:, 0]) / np.maximum(R[:, 1] - R[:, 0], 1e-9)
        if f == 'sphere':
            return float(np.sum((z - 0.3) ** 2))
        if f == 'linear':
            return float(np.sum(z) * 10 - 3)
        if f == 'const':
            return 1.25
        if f == 'steps':
            return float(np.floor(np.sum(z) * 4))
        if f == 'halves':
            return float(np.floor(np.sum(z) * 6) / 2)
        if f == 'spike':
            # whole numbers except in a narrow region
            return 2.0 if np.sum(z) / len(z) < 0.6 else float(np.sum(z)) + 0.25
        return float(1e3 * np.sin(5 * np.sum(z)) + 1e4)

    def __call__(self, x):
        ensure(isinstance(x, np.ndarray), 'the objective received %s', type(x).__name__)
        self.calls.append(np.array(x, copy=True))
        v = self.value(x) + (0.001 * self.count if self.c['fun'] == 'nasty' else 0.0)
        s = 0.004 if self.c['sleep'] and self.count % 2 == 0 else 0.0
        if s:
            time.sleep(s)
        self.slept.append(s)
        self.count += 1
        r = self.c['ret']
        if r == 'float32':
            v = float(np.float32(v))
        self.values.append(v)
        if r == 'float32':
            return np.float32(v)
        if r == 'arr0':
            return np.array(v)
        if r == 'mixed':
            return int(v) if v == int(v) else v
        if r == 'float':
            return v
        if r == 'npfloat':
            return np.float64(v)
        if r == 'arr1':
            return np.array([v])
        if r == 'arr11':
            return np.array([[v]])
        return int(v)


def build(c, obj, R):
    if c['wrapper'] == 'class':
        from bayeso.wrappers import BayesianOptimization
        kw = dict(str_surrogate=c['kind'], str_acq=c['acq'], normalize_Y=c['norm'],
                  str_initial_method_bo=c['init'], str_sampling_method_ao=c['sampling'],
                  num_samples_ao=c['num'], debug=bool(c.get('debug')), str_exp=c.get('exp'))
        if c['kind'] == 'rf':
            kw['str_optimizer_method_bo'] = 'random_search'
        else:
            kw.update(str_cov=c['cov'], use_ard=c['ard'], prior_mu=g.prior_fn(c['prior']),
                      str_optimizer_method_bo=c['opt'])
            if c['kind'] == 'gp':
                kw.update(str_optimizer_method_gp=c['fit'], str_mlm_method=c['mlm'],
                          str_modelselection_method=c['crit'])
            else:
                kw['str_optimizer_method_tp'] = c['fit']
        b = call(BayesianOptimization, R, obj, c['num_iter'], **kw)
        return b, b.model_bo
    m = c14.make(c, R)
    return None, m


def run(c, b, model, obj, X, Y):
    from bayeso import wrappers as w
    kw = dict(str_sampling_method_ao=c['sampling'], num_samples_ao=c['num'])
    if c['wrapper'] == 'class':
        if c['entry'] == 'seeded':
            return call(b.optimize, len(X), seed=c['seed'])
        if c['entry'] == 'inputs':
            return call(b.optimize_with_initial_inputs, X)
        return call(b.optimize_with_all_initial_information, X, Y)
    kw['str_mlm_method'] = c['mlm']
    if c['entry'] == 'seeded':
        return call(w.run_single_round, model, obj, len(X), c['num_iter'],
                    str_initial_method_bo=c['init'], seed=c['seed'], **kw)
    if c['entry'] == 'inputs':
        return call(w.run_single_round_with_initial_inputs, model, obj, X, c['num_iter'], **kw)
    return call(w.run_single_round_with_all_initial_information, model, obj, X, Y, c['num_iter'],
                **kw)


@g.strat
def gen_long(draw):
    """Long runs; the surrogate is a stand-in that proposes seeded random points."""
    c = draw(gen())
    A = np.array(c['range'])
    c['X'] = g.points(draw, g.size(draw, 12, 60, 180), len(A), lo=A[:, 0], hi=A[:, 1])
    c['num_iter'] = g.size(draw, 15, 60, 180)
    c['sleep'] = False
    c['script'] = draw(st.integers(0, 2**31 - 1))
    c['repeat'] = g.chance(draw, 40)
    if c['repeat'] and np.ptp(A, axis=1).min() < 1e-2:
        c['repeat'] = False
    return c


def scripted(c, R):
    r = np.random.RandomState(c['script'])

    def optimize(X, Y, *args, **kwargs):
        P = R[:, 0] + r.rand(4, len(R)) * (R[:, 1] - R[:, 0])
        a = r.randn(4).round(2)
        nxt = np.array(P[0])
        if c['repeat'] and r.rand() < 0.3:
            nxt = np.array(X[r.randint(len(X))])
        return nxt, {'next_points': P, 'acquisitions': a, 'time_surrogate': 0.0, 'time_acq': 0.0}
    return optimize


@PROP.sub(gen, 520, 9000, lambda c: c['num_iter'] > 1 and len(c['X']) > 1,
          'several initial points and several iterations')
def history(c):
    return check_history(c)


@PROP.sub(gen_long, 1200, 20000, lambda c: c['num_iter'] > 8, 'more than eight iterations')
def long_runs(c):
    """The bookkeeping of long runs (proposals come from a stand-in)."""
    return check_history(c)


def check_history(c):
    R = g.A(c['range'])
    d, it, k = len(R), c['num_iter'], len(c['X'])
    obj = Objective(c)
    b, model = build(c, obj, R.copy())
    seen = []
    inner = scripted(c, R) if 'script' in c else model.optimize

    def spy(X, Y, *args, **kwargs):
        res = inner(X, Y, *args, **kwargs)
        seen.append((np.array(X), np.array(Y), np.array(res[0]),
                     np.array(res[1]['next_points']), np.array(res[1]['acquisitions'])))
        return res
    model.optimize = spy
    for _ in range(c['rounds']):
        obj.calls, obj.values, obj.slept = [], [], []
        del seen[:]
        X0 = g.A(c['X'])
        Y0 = np.array([[obj.value(x)] for x in X0])
        start = time.time()
        res = run(c, b, model, obj, X0.copy(), Y0.copy())
        elapsed = time.time() - start
        ensure(isinstance(res, tuple) and len(res) == 5, 'expected five results')
        X = ref.out(res[0], (k + it, d), 'evaluated inputs')
        Y = ref.out(res[1], (k + it, 1), 'responses')
        pre = 0 if c['entry'] == 'all' else k
        t_all = ref.out(res[2], (pre + it,), 'times')
        t_sur = ref.out(res[3], (it,), 'surrogate times')
        t_acq = ref.out(res[4], (it,), 'acquisition times')
        ensure(np.all(X >= R[:, 0]) and np.all(X <= R[:, 1]), 'an evaluated point is outside')
        ensure(len(obj.calls) == pre + it, 'the objective was called %d times, expected %d',
               len(obj.calls), pre + it)
        off = k - pre
        for i, x in enumerate(obj.calls):
            ensure(x.shape == (d,), 'the objective received shape %s', x.shape)
            ensure(np.array_equal(x, X[off + i]),
                   'evaluation %d was at %s but row %d of the result is %s', i, x, off + i,
                   X[off + i])
            ensure(obj.values[i] == Y[off + i, 0], 'evaluation %d returned %r, reported %r', i,
                   obj.values[i], float(Y[off + i, 0]))
        if c['entry'] != 'seeded':
            ensure(np.array_equal(X[:k], X0), 'the given initial inputs were not kept')
        elif c['seed'] is not None:
            want = call(model.get_initials, c['init'], k, seed=c['seed'])
            ensure(np.array_equal(X[:k], want), 'initial inputs are not those of the seed')
        if c['entry'] == 'all':
            ensure(np.array_equal(Y[:k], Y0), 'the given initial responses were not kept')
        ensure(min(t_all.min(), t_sur.min(), t_acq.min()) >= 0, 'negative time')
        ensure(np.all(t_sur + t_acq <= t_all[pre:] + 1e-3),
               'surrogate and acquisition times exceed the iteration time')
        ensure(np.sum(t_all) <= elapsed + 1e-3, 'the times add up to %g s, the run took %g s',
               np.sum(t_all), elapsed)
        for i, s in enumerate(obj.slept):
            if s:
                ensure(t_all[i] >= 0.8 * s, 'evaluation %d slept %g s, its time is %g s', i, s,
                       t_all[i])
        if seen:
            ensure(len(seen) == it, 'the surrogate was optimised %d times in %d iterations',
                   len(seen), it)
            for i, (Xi, Yi, nxt, P, acq) in enumerate(seen):
                ensure(np.array_equal(Xi, X[:k + i]) and np.array_equal(Yi, Y[:k + i]),
                       'iteration %d was not given the whole history', i)
                new = X[k + i]
                near = np.linalg.norm(X[:k + i] - nxt, axis=1)
                if np.all(near > 2e-8):
                    ensure(np.array_equal(new, nxt), 'iteration %d evaluated %s, proposed %s', i,
                           new, nxt)
                elif np.any(near < 0.5e-8):
                    ensure(np.any(np.all(P == new, axis=1)) or np.array_equal(new, X[k + i - 1]),
                           'a repeated proposal was not replaced by a candidate')
    return {'labels': [c['kind'], c['wrapper'], c['entry'], c['fun'], c['ret']]}


FAILURES = (ZeroDivisionError, FloatingPointError, OverflowError, ValueError, TypeError, KeyError,
            IndexError, RuntimeError, AssertionError, AttributeError, OSError, TimeoutError,
            np.linalg.LinAlgError)


@g.strat
def gen_failing(draw):
    c = draw(gen_long())
    A = np.array(c['range'])
    c['X'] = g.points(draw, g.size(draw, 4, 12), len(A), lo=A[:, 0], hi=A[:, 1])
    c['num_iter'] = g.size(draw, 6, 15)
    c['error'] = draw(st.integers(0, len(FAILURES) - 1))
    c['rounds'] = 1
    pre = 0 if c['entry'] == 'all' else len(c['X'])
    c['at'] = draw(st.integers(1, pre + c['num_iter']))
    return c


@PROP.sub(gen_failing, 500, 8000, lambda c: c['at'] > 1, 'some evaluations succeed first')
def failing_objective(c):
    """An objective that fails ends the run: nothing is evaluated again, nothing is made up."""
    R = g.A(c['range'])
    inner = Objective(c)
    b, model = build(c, inner, R.copy())
    raised = []
    calls = [0]

    def obj(x):
        calls[0] += 1
        if calls[0] == c['at']:
            raised.append(FAILURES[c['error']]('evaluation failed'))
            raise raised[0]
        return inner(x)
    if b is not None:
        b, model = build(c, obj, R.copy())
    model.optimize = scripted(c, R)
    X0 = g.A(c['X'])
    Y0 = np.array([[inner.value(x)] for x in X0])
    try:
        run(c, b, model, obj, X0, Y0)
    except Exception as e:  # call() hands on what the library raised as the cause
        chain = []
        while e is not None and e not in chain:
            chain.append(e)
            e = e.__cause__ or e.__context__
        ensure(raised, 'the run failed before the objective did: %r', chain[-1])
        ensure(raised[0] in chain, 'the failure of the objective became %r', chain[-1])
    else:
        ensure(False, 'evaluation %d raised %s and the run still returned', c['at'],
               FAILURES[c['error']].__name__)
    ensure(calls[0] == c['at'], 'the objective failed at call %d and was called %d times', c['at'],
           calls[0])
    return {'labels': [c['wrapper'], c['entry'], FAILURES[c['error']].__name__]}


@PROP.sub(gen, 80, 1500, None, 'every case runs one step through the wrapper class')
def single_iteration(c):
    """The one-step entry point proposes from the data it is given and evaluates nothing."""
    from vp.core import Entropy
    R = g.A(c['range'])
    c = dict(c, wrapper='class')
    obj = Objective(c)
    b, model = build(c, obj, R.copy())
    X = g.A(c['X'])
    Y = np.array([[obj.value(x)] for x in X])
    with Entropy(5):
        x1, info = call(b.optimize_single_iteration, X.copy(), Y.copy())
    ensure(not obj.calls, 'a single proposal evaluated the objective')
    x1 = ref.out(x1, (len(R),), 'next point')
    ensure(np.all(x1 >= R[:, 0]) and np.all(x1 <= R[:, 1]), 'next point outside the box')
    b2, model2 = build(c, obj, R.copy())
    kw = dict(str_sampling_method=c['sampling'], num_samples=c['num'])
    if c['kind'] == 'gp':
        kw['str_mlm_method'] = c['mlm']
    with Entropy(5):
        x2, info2 = call(model2.optimize, X.copy(), Y.copy(), **kw)
    if c['kind'] == 'gp' and c['mlm'] == 'converged':
        model2 = build(c, obj, R.copy())[1]
    with Entropy(5):
        x3, info3 = call(model2.optimize, X.copy(), Y.copy(), **kw)
    if not np.array_equal(info2['next_points'], info3['next_points']):
        # the unseeded candidates are not under the harness's control: nothing to compare
        return {'nontrivial': False, 'labels': ['candidates not reproducible']}
    ref.close(x1, x2, 1e-9 * (1 + np.abs(x2)), 'wrapper step vs direct step')
    ref.close(info['next_points'], info2['next_points'], 1e-9 * (1 + np.abs(info2['next_points'])),
              'wrapper candidates vs direct candidates')
