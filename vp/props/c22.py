"""C22: calls never modify the caller's data or earlier results, and repeat exactly."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp.core import Entropy, Prop, call, ensure

PROP = Prop('C22', 'Calls leave the caller\'s data and earlier results untouched and repeat exactly', [
    'Repetition is compared under the same state of every random generator; routines that use no '
    'randomness are also repeated under a different state.',
])

OPS = ['cov', 'cov_same', 'set', 'grad', 'inverse', 'cholesky', 'nlml', 'loo', 'tp_nlml',
       'gp_hyps', 'tp_hyps', 'gp_cov', 'gp_fit', 'tp_fit', 'gp_opt', 'acq', 'normalize', 'history',
       'next_best', 'bounds', 'minimum', 'time', 'grids', 'convert', 'restore', 'validate',
       'samples', 'step_gp', 'step_gp_conv', 'step_tp', 'step_rf', 'acquisitions', 'posteriors',
       'forest', 'trees', 'forest_predict', 'convergence', 'text', 'best_eval', 'draw', 'tp_draw',
       'loop', 'thompson']
HEAVY = {'gp_fit', 'tp_fit', 'gp_opt', 'step_gp', 'step_gp_conv', 'step_tp', 'step_rf', 'loop',
         'thompson', 'forest', 'trees'}
# routines whose result may depend on the state of the random generators
RANDOM = {'draw', 'tp_draw', 'forest', 'trees', 'step_rf'}
# routines that are allowed to depend on what the same optimiser did before
STATEFUL = {'step_gp_conv'}
# routines that draw their candidates from unseeded generators: only purity is checked
UNSEEDED = {'loop', 'thompson'}


@g.strat
def gen(draw):
    d = g.size(draw, 3)
    n = draw(st.integers(2, 6))
    R = g.ranges(draw, d, degenerate=False, wide=False)
    A = np.array(R)
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        op = g.pick(draw, *OPS)
        if op in HEAVY and g.chance(draw, 60):
            op = g.pick(draw, *[o for o in OPS if o not in HEAVY])
        ops.append(op)
    return {'range': R, 'X': g.points(draw, n, d, lo=A[:, 0], hi=A[:, 1]),
            'Y': g.responses(draw, n, scale=False),
            'T': g.points(draw, draw(st.integers(1, 5)), d, lo=A[:, 0], hi=A[:, 1]),
            'h': g.hyps(draw, d, ard=True, tp=True, noise=(0.05, 0.5), ls=(0.2, 10.0),
                        signed=True),
            'cov': g.pick(draw, *g.COV_BASE), 'acq': g.pick(draw, 'ei', 'pi', 'ucb', 'aei'),
            'prior': g.prior(draw), 'ops': ops, 'order': g.pick(draw, 'C', 'C', 'F', 'V'),
            'e': draw(st.integers(0, 9999)), 'norm': g.chance(draw, 60),
            'update': g.chance(draw, 50)}


def snap(v):
    return copy.deepcopy(v)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and \
            a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return type(a) is type(b) and a == b


def no_times(v):
    """Drop wall-clock entries, which legitimately differ between repetitions."""
    if isinstance(v, dict):
        return {k: no_times(x) for k, x in v.items() if not str(k).startswith('time')}
    if isinstance(v, (list, tuple)):
        return type(v)(no_times(x) for x in v)
    return v


class World:
    def __init__(self, c, debug=False, store=None):
        from bayeso import bo
        # only passed on when set, so that the default call stays the default call
        self.dbg = {'debug': True} if debug else {}
        o = c['order']

        def arr(x):
            if o == 'V':
                # a writable view of an array somebody else owns, such as y[:, np.newaxis]
                x = np.array(x, dtype=float)
                return x.reshape(-1).copy()[:].reshape(x.shape)
            return np.array(x, dtype=float, order=o)
        self.c = c
        h = g.np_hyps(c['h'])
        self.gh = {k: v for k, v in h.items() if k != 'dof'}
        self.d = {'R': arr(c['range']), 'X': arr(c['X']), 'Y': arr(c['Y']), 'T': arr(c['T']),
                  'h': h, 'gh': self.gh}
        X = self.d['X']
        self.d['S'] = np.stack([X, X + 0.5], axis=1)
        self.d['v'] = np.append([h['signal']], h['lengthscales'])
        self.d['vt'] = np.append([h['dof'], h['signal']], h['lengthscales'])
        self.d['M'] = g.prior_vals(c['prior'], X).copy()
        m = len(c['T'])
        r = np.random.RandomState(7)
        self.d['mean'], self.d['std'] = r.randn(m), r.rand(m)
        n = len(X)
        from vp import ref
        K = ref.train_cov(c['cov'], X, h)
        self.d['K'], self.d['Ki'] = K, np.linalg.inv(K)
        self.d['runs'] = r.randn(3, n + 2)
        self.d['hist'] = [dict(self.gh), dict(self.gh, signal=h['signal'] * 1.2)]
        if store is not None:
            self.d = {k: store(k, v) if isinstance(v, np.ndarray) else v
                      for k, v in self.d.items()}
        X = self.d['X']
        self.prior = g.prior_fn(c['prior'])
        R = self.d['R']
        kw = dict(self.dbg, str_acq=c['acq'], normalize_Y=c['norm'])
        pk = dict(kw, str_cov=c['cov'], prior_mu=self.prior)
        self.gp = call(bo.BOwGP, R, str_optimizer_method_gp='L-BFGS-B', **pk)
        self.gpc = call(bo.BOwGP, R, str_optimizer_method_gp='L-BFGS-B', **pk)
        self.tp = call(bo.BOwTP, R, **pk)
        self.rf = call(bo.BOwTrees, R, **kw)
        with Entropy(1):
            from bayeso.trees import trees_random_forest as tf
            self.d['forest'] = call(tf.get_random_forest, X, self.d['Y'], 3, 3, 1, 1)

    def run(self, op):
        import bayeso.acquisition as acq
        import bayeso.covariance as cov
        from bayeso import thompson_sampling as ts, wrappers as w
        from bayeso.gp import gp, gp_kernel, gp_likelihood as gl
        from bayeso.tp import tp, tp_likelihood as tl
        from bayeso.trees import trees_common as tc, trees_generic_trees as tg
        from bayeso.trees import trees_random_forest as tf
        from bayeso.utils import utils_bo as ub, utils_common as uc, utils_covariance as ucov
        from bayeso.utils import utils_logger as ul
        D, c = self.d, self.c
        dbg = self.dbg
        X, Y, T, R, h, gh, k = D['X'], D['Y'], D['T'], D['R'], D['h'], D['gh'], c['cov']
        step = dict(str_sampling_method='uniform', num_samples=2, seed=11)

        def objective(x):
            return float(np.sum(x))
        f = {
            'cov': lambda: cov.cov_main(k, X, T, gh, False),
            'cov_same': lambda: cov.cov_main(k, X, X, gh, True),
            'set': lambda: cov.cov_main('set_' + k, D['S'], D['S'], gh, True),
            'grad': lambda: cov.grad_cov_main(k, X, X, gh, True, same_X_Xp=True),
            'inverse': lambda: cov.get_kernel_inverse(X, gh, k, use_gradient=True, fix_noise=True,
                                                      **dbg),
            'cholesky': lambda: cov.get_kernel_cholesky(X, gh, k, use_gradient=False,
                                                        **dbg),
            'nlml': lambda: gl.neg_log_ml(X, Y, D['v'], k, D['M'], **dbg),
            'loo': lambda: gl.neg_log_pseudo_l_loocv(X, Y, D['v'], k, D['M'], **dbg),
            'tp_nlml': lambda: tl.neg_log_ml(X, Y, D['vt'], k, D['M'], **dbg),
            'gp_hyps': lambda: gp.predict_with_hyps(X, Y, T, gh, str_cov=k, prior_mu=self.prior,
                                                    **dbg),
            'tp_hyps': lambda: tp.predict_with_hyps(X, Y, T, h, str_cov=k, prior_mu=self.prior,
                                                    **dbg),
            'gp_cov': lambda: gp.predict_with_cov(X, Y, T, D['K'], D['Ki'], gh, str_cov=k,
                                                  prior_mu=self.prior, **dbg),
            'gp_fit': lambda: gp_kernel.get_optimized_kernel(
                X, Y, self.prior, k, str_optimizer_method='L-BFGS-B', **dbg),
            'tp_fit': lambda: tp.predict_with_optimized_hyps(X, Y, T, str_cov=k,
                                                             prior_mu=self.prior, **dbg),
            'gp_opt': lambda: gp.predict_with_optimized_hyps(
                X, Y, T, str_cov=k, str_optimizer_method='L-BFGS-B', prior_mu=self.prior, **dbg),
            'acq': lambda: (acq.ei(D['mean'], D['std'], Y), acq.pi(D['mean'], D['std'], Y),
                            acq.ucb(D['mean'], D['std'], Y_train=Y),
                            acq.aei(D['mean'], D['std'], Y, 0.1), acq.pure_exploit(D['mean']),
                            acq.pure_explore(D['std'])),
            'normalize': lambda: ub.normalize_min_max(Y),
            'history': lambda: ub.get_best_acquisition_by_history(X, Y),
            'next_best': lambda: ub.get_next_best_acquisition(T, D['mean'], X),
            'bounds': lambda: ub.check_points_in_bounds(T, R),
            'minimum': lambda: uc.get_minimum(D['runs'], 2),
            'time': lambda: uc.get_time(D['runs'], 2, True),
            'grids': lambda: uc.get_grids(R, 3),
            'convert': lambda: ucov.convert_hyps(k, gh, fix_noise=False),
            'restore': lambda: ucov.restore_hyps(k, D['v'], fix_noise=True),
            'validate': lambda: ucov.validate_hyps_dict(h, k, len(R), use_gp=False),
            'samples': lambda: [self.gp.get_samples(s, num_samples=2, seed=5)
                                for s in ('uniform', 'sobol', 'halton', 'gaussian', 'grid')],
            'step_gp': lambda: self.gp.optimize(X, Y, **step),
            'step_gp_conv': lambda: self.gpc.optimize(X, Y, str_mlm_method='converged', **step),
            'step_tp': lambda: self.tp.optimize(X, Y, **step),
            'step_rf': lambda: self.rf.optimize(X, Y, **step),
            'acquisitions': lambda: (
                self.gp.compute_acquisitions(T, X, Y, D['K'], D['Ki'], gh),
                self.tp.compute_acquisitions(T, X, Y, D['K'], D['Ki'], h),
                self.rf.compute_acquisitions(T, X, Y, D['forest'])),
            'posteriors': lambda: (
                self.gp.compute_posteriors(X, Y, T, D['K'], D['Ki'], gh),
                self.tp.compute_posteriors(X, Y, T, D['K'], D['Ki'], h),
                self.rf.compute_posteriors(T, D['forest'])),
            'forest': lambda: tf.get_random_forest(X, Y, 3, 3, 1, 1),
            'trees': lambda: tg.get_generic_trees(X, Y, 3, 3, 1, 1.0, True, 1, False),
            'forest_predict': lambda: tc.predict_by_trees(T, D['forest']),
            'convergence': lambda: ub.check_hyps_convergence(D['hist'], gh, k, True),
            'text': lambda: (ul.get_str_array(X), ul.get_str_hyps(h)),
            'best_eval': lambda: ub.get_best_acquisition_by_evaluation(
                T, lambda x: np.array([float(np.sum(x))])),
            'draw': lambda: gp.sample_functions(D['mean'][:1], D['K'][:1, :1], num_samples=3),
            'tp_draw': lambda: tp.sample_functions(5.0, D['mean'][:1], D['K'][:1, :1],
                                                   num_samples=3),
            'loop': lambda: w.BayesianOptimization(
                R, objective, 1, str_optimizer_method_gp='L-BFGS-B',
                num_samples_ao=1, **dbg).optimize_with_all_initial_information(X, Y),
            'thompson': lambda: ts.thompson_sampling_gp_iteration(R, X, Y, num_samples=5, **dbg),
        }[op]
        return call(f)


@PROP.sub(gen, 2600, 40000, lambda c: len(set(c['ops'])) > 1, 'several different operations')
def pure(c):
    W = World(c)
    base = {k: snap(v) for k, v in W.d.items()}
    kept = []
    seen = {}
    for i, op in enumerate(c['ops']):
        with Entropy(c['e']):
            out = W.run(op)
        for k, v in W.d.items():
            ensure(same(v, base[k]), '%s modified its input %s', op, k)
        for name, obj, was in kept:
            ensure(same(obj, was), '%s modified a result returned earlier by %s', op, name)
        if op not in STATEFUL | UNSEEDED:
            got = snap(no_times(out))
            if op in seen:
                ensure(same(got, seen[op]), 'step %d: repeating %s gave another result', i, op)
            else:
                # immediate repetition, under another random state where that must not matter
                with Entropy(c['e'] if op in RANDOM else c['e'] + 55):
                    again = W.run(op)
                ensure(same(got, no_times(again)), 'repeating %s gave another result', op)
            seen[op] = got
        kept.append((op, out, snap(out)))
    for k, v in W.d.items():
        ensure(same(v, base[k]), 'the history modified the input %s', k)
    if len(seen) > 0 and c['update']:
        # the caller updates its own arrays in place: results are those of the new data
        c2 = dict(c, X=c['X'][1:] + c['X'][:1], Y=[[y[0] * 0.5 + 1.0] for y in c['Y']],
                  T=[[float(v) for v in t] for t in (g.A(c['T']) + g.A(c['X'])[0]) / 2.0])
        W2 = World(c2)
        for k, v in W.d.items():
            if isinstance(v, np.ndarray):
                v[...] = W2.d[k]
        W.d['forest'] = W2.d['forest']
        for op in seen:
            with Entropy(c['e']):
                got = W.run(op)
            with Entropy(c['e']):
                want = W2.run(op)
            ensure(same(no_times(got), no_times(want)),
                   '%s does not notice that its arguments were updated in place', op)
    return {'labels': c['ops'][:4]}
