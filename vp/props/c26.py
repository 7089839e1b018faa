"""C26: malformed arguments are rejected instead of being computed with."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp.core import Prop, call, ensure

PROP = Prop('C26', 'Malformed arguments are rejected before anything is evaluated', [
    'One argument is malformed at a time; any exception counts as rejection.',
])

# kinds of argument: how each is broken
BREAK = {
    'mat': ['list', 'none', 'flat', 'cube'],
    'wide': ['list', 'none', 'flat', 'cube', 'widen', 'narrow'],
    'vec': ['list', 'none', 'col'],
    'sets': ['list', 'none', 'flat'],
    'box': ['list', 'none', 'flat', 'cube', 'threecol', 'reversed', 'reversed_last', 'onecol'],
    'col': ['list', 'none', 'flat', 'cube', 'short', 'long', 'twocol'],
    'rows': ['list', 'none', 'flat', 'cube', 'widen', 'narrow'],
    'sq': ['list', 'none', 'flat', 'short', 'cube'],
    'colm': ['list', 'none', 'flat', 'short', 'long'],
    'same': ['short', 'long', 'list', 'none', 'col'],
    'pos': ['zero', 'neg', 'float', 'text', 'none'],
    'count': ['float', 'text', 'none'],
    'seed': ['float', 'text'],
    'flag': ['one', 'text', 'none'],
    'name': ['unknown', 'upper', 'three', 'none'],
    'dict': ['list', 'none'],
    'fun': ['three', 'none', 'text'],
    'optfun': ['three', 'text'],
    'real': ['text', 'none', 'three'],
    'hyps': ['list', 'none', 'drop_signal', 'drop_lengthscales', 'long_lengthscales',
             'signal_text', 'lengthscales_text'],
    'thyps': ['list', 'none', 'drop_signal', 'drop_lengthscales', 'long_lengthscales',
              'signal_text', 'lengthscales_text', 'drop_dof', 'drop_noise', 'noise_text'],
    'ghyps': ['list', 'none', 'drop_signal', 'drop_lengthscales', 'long_lengthscales',
              'signal_text', 'lengthscales_text', 'drop_noise', 'noise_text'],
}


def broken(v, how):
    a = v
    if how == 'list':
        return a.tolist() if isinstance(a, np.ndarray) else list(a)
    if how == 'none':
        return None
    if how == 'list_':
        return [a]
    if how == 'tall':
        return tuple(a) + (2,)
    if how == 'flat_':
        return tuple(a)[1:]
    if how.startswith('returns_'):
        return Posterior(how[8:])
    if how == 'tuple':
        return tuple(a)
    if how == 'flat':
        return a.ravel()
    if how == 'plane':
        return a.reshape(-1, a.shape[-1])
    if how == 'four':
        return a[None]
    if how == 'fewer_runs':
        return a[:, :-1]
    if how == 'fewer_steps':
        return a[..., :-1]
    if how == 'forest_optimizer':
        return 'random_search'
    if how == 'process_optimizer':
        return 'L-BFGS-B'
    if how == 'grid':
        return 'grid'
    if how == 'cube':
        return a[..., None]
    if how == 'col':
        return a[:, None]
    if how == 'threecol':
        return np.hstack([a, a[:, 1:]])
    if how == 'onecol':
        return a[:, :1]
    if how in ('reversed', 'reversed_last'):
        b = a.copy()
        i = 0 if how == 'reversed' else -1
        b[i] = [b[i, 1] + 1.0, b[i, 0]]
        return b
    if how == 'short':
        return a[:-1]
    if how == 'long' and isinstance(a, list):
        return a + a[-1:]
    if how == 'long':
        return np.concatenate([a, a[-1:]])
    if how == 'twocol':
        return np.hstack([a, a])
    if how == 'widen':
        return np.hstack([a, a[:, :1]])
    if how == 'narrow':
        return a[:, :-1]
    if how in ('outside_low', 'outside_high'):
        b = a.copy()
        b[-1, 0] += 5.0 if how == 'outside_high' else -5.0
        return b
    if how in ('all', 'more'):
        return 4 if how == 'all' else 9
    if how.endswith('_real'):
        return {'zero': 0.0, 'neg': -0.5, 'two': 2.0}[how[:-5]]
    if how == 'zero':
        return 0
    if how == 'neg':
        return -2
    if how == 'float':
        return 2.5
    if how == 'text':
        return 'two'
    if how == 'one':
        return 1
    if how == 'three':
        return 3
    if how == 'unknown':
        return 'no-such-name'
    if how == 'upper':
        return v.upper() if v.upper() != v else v.lower()
    if how.startswith('drop_'):
        return {k: x for k, x in a.items() if k != how[5:]}
    if how == 'long_lengthscales':
        return dict(a, lengthscales=np.append(a['lengthscales'], 1.0))
    if how.endswith('_text'):
        return dict(a, **{how[:-5]: 'abc'})
    raise ValueError(how)


class Calls:
    def __init__(self):
        self.n = 0

    def __call__(self, x):
        self.n += 1
        return float(np.sum(np.asarray(x) ** 2))


def specs(c, obj):
    """name -> (function, {argument: (kind, valid value)}, run the valid call too)."""
    import bayeso.acquisition as acq
    import bayeso.covariance as cov
    from bayeso import bo, thompson_sampling as ts, wrappers as w
    from bayeso.gp import gp, gp_kernel, gp_likelihood
    from bayeso.tp import tp, tp_kernel, tp_likelihood
    from bayeso.trees import trees_common as tc, trees_generic_trees as tg
    from bayeso.trees import trees_random_forest as tf
    from bayeso.utils import utils_bo as ub, utils_common as uc, utils_covariance as ucov
    r = np.random.RandomState(c['r'])
    d, n, m = c['d'], c['n'], c['m']
    R = np.stack([r.rand(d) - 1, r.rand(d) + 1], axis=1)
    X = R[:, 0] + r.rand(n, d) * (R[:, 1] - R[:, 0])
    Y = r.randn(n, 1)
    T = R[:, 0] + r.rand(m, d) * (R[:, 1] - R[:, 0])
    h = {'noise': 0.1, 'signal': 1.5, 'lengthscales': r.rand(d) + 0.5}
    ht = dict(h, dof=5.0)
    K = cov.cov_main('se', X, X, h, True) + 0.01 * np.eye(n)
    Ki = np.linalg.inv(K)
    mean, std = r.randn(m), r.rand(m)
    out = {}

    def add(name, fn, run=True, **args):
        out[name] = (fn, args, run)

    for f in ('pi', 'ei'):
        add(f, getattr(acq, f), pred_mean=('vec', mean), pred_std=('same', std),
            Y_train=('mat', Y), jitter=('real', 1e-5))
    add('ucb', acq.ucb, pred_mean=('vec', mean), pred_std=('same', std),
        kappa=('real', 2.0), increase_kappa=('flag', True), Y_train=(None, Y))
    add('aei', acq.aei, pred_mean=('vec', mean), pred_std=('same', std), Y_train=('mat', Y),
        noise=('real', 0.1), jitter=('real', 1e-5))
    add('pure_exploit', acq.pure_exploit, pred_mean=('vec', mean))
    add('pure_explore', acq.pure_explore, pred_std=('vec', std))
    for name in ('se', 'matern32', 'matern52'):
        add('cov_' + name, getattr(cov, 'cov_' + name), X=('rows', X), Xp=('rows', T),
            lengthscales=('colm', h['lengthscales']) if d > 1 else (None, h['lengthscales']),
            signal=('real', 1.5))
    add('cov_main', cov.cov_main, str_cov=('name', 'matern52'), X=('rows', X), Xp=('rows', T),
        hyps=('hyps', h), same_X_Xp=('flag', False), jitter=('real', 1e-5))
    add('cov_main same', cov.cov_main, str_cov=('name', 'se'), X=('rows', X), Xp=('colm', X),
        hyps=('hyps', h), same_X_Xp=('flag', True))
    S = np.stack([X, X + 1.0], axis=1)
    add('cov_main set', cov.cov_main, str_cov=('name', 'set_se'), X=('sets', S),
        Xp=('sets', S[:1]), hyps=('hyps', h), same_X_Xp=('flag', False))
    add('grad_cov_main', cov.grad_cov_main, str_cov=('name', 'se'), X=('mat', X), Xp=(None, X),
        hyps=('dict', h), fix_noise=('flag', True), same_X_Xp=('flag', True))
    add('get_kernel_inverse', cov.get_kernel_inverse, X_train=('rows', X), hyps=('ghyps', h),
        str_cov=('name', 'matern32'), fix_noise=('flag', True), use_gradient=('flag', False),
        debug=('flag', False))
    add('get_kernel_cholesky', cov.get_kernel_cholesky, X_train=('rows', X), hyps=('ghyps', h),
        str_cov=('name', 'matern32'), fix_noise=('flag', True), use_gradient=('flag', False),
        debug=('flag', False))
    # Gaussian and Student-t processes
    for tag, mod, hy in (('gp', gp, 'ghyps'), ('tp', tp, 'thyps')):
        hh = ht if tag == 'tp' else h
        add(tag + ' predict_with_hyps', mod.predict_with_hyps, X_train=('rows', X),
            Y_train=('col', Y), X_test=('rows', T), hyps=(hy, hh), str_cov=('name', 'matern52'),
            prior_mu=('optfun', None), debug=('flag', False))
        add(tag + ' predict_with_cov', mod.predict_with_cov, X_train=('rows', X),
            Y_train=('col', Y), X_test=('rows', T), cov_X_X=('sq', K), inv_cov_X_X=('sq', Ki),
            hyps=('hyps' if tag == 'gp' else 'thyps_', hh), str_cov=('name', 'se'),
            prior_mu=('optfun', None), debug=('flag', False))
        add(tag + ' predict_with_optimized_hyps', mod.predict_with_optimized_hyps, False,
            X_train=('rows', X), Y_train=('col', Y), X_test=('rows', T),
            str_cov=('name', 'matern52'), str_optimizer_method=('name', 'L-BFGS-B'),
            prior_mu=('optfun', None), debug=('flag', False))
    add('gp get_optimized_kernel', gp_kernel.get_optimized_kernel, False, X_train=('mat', X),
        Y_train=('col', Y), prior_mu=('optfun', None), str_cov=('name', 'se'),
        str_optimizer_method=('name', 'L-BFGS-B'), str_modelselection_method=('name', 'ml'),
        use_ard=('flag', True), fix_noise=('flag', True), debug=('flag', False))
    add('tp get_optimized_kernel', tp_kernel.get_optimized_kernel, False, X_train=('mat', X),
        Y_train=('col', Y), prior_mu=('optfun', None), str_cov=('name', 'se'),
        str_optimizer_method=('name', 'L-BFGS-B'), use_ard=('flag', True),
        fix_noise=('flag', True), debug=('flag', False))
    v = np.append([1.5], h['lengthscales'])
    M = np.zeros((n, 1))
    add('gp neg_log_ml', gp_likelihood.neg_log_ml, X_train=('mat', X), Y_train=('col', Y),
        hyps=('vec', v), str_cov=('name', 'se'), prior_mu_train=('colm', M),
        use_ard=('flag', True), fix_noise=('flag', True), use_cholesky=('flag', True),
        use_gradient=('flag', True), debug=('flag', False))
    add('gp neg_log_pseudo_l_loocv', gp_likelihood.neg_log_pseudo_l_loocv, X_train=('mat', X),
        Y_train=('col', Y), hyps=('vec', v), str_cov=('name', 'se'), prior_mu_train=('colm', M),
        fix_noise=('flag', True), debug=('flag', False))
    add('tp neg_log_ml', tp_likelihood.neg_log_ml, X_train=('mat', X), Y_train=('col', Y),
        hyps=('vec', np.append([5.0], v)), str_cov=('name', 'se'), prior_mu_train=('colm', M),
        use_ard=('flag', True), fix_noise=('flag', True), use_gradient=('flag', True),
        debug=('flag', False))
    add('gp sample_functions', gp.sample_functions, mu=('vec', Y[:, 0]), Sigma=('sq', K),
        num_samples=('count', 2))
    add('tp sample_functions', tp.sample_functions, nu=('real', 5.0), mu=('vec', Y[:, 0]),
        Sigma=('sq', K), num_samples=('count', 2))
    # trees
    add('random forest', tf.get_random_forest, X=('mat', X), Y=('col', Y), num_trees=('count', 2),
        depth_max=('count', 3), size_min_leaf=('count', 1), num_features=('count', 1))
    add('generic trees', tg.get_generic_trees, X=('mat', X), Y=('col', Y), num_trees=('count', 2),
        depth_max=('count', 3), size_min_leaf=('count', 1), ratio_sampling=('ratio', 1.0),
        replace_samples=('flag', False), num_features=('count', 1),
        split_random_location=('flag', True))
    add('subsample', tc.subsample, X=('mat', X), Y=('col', Y), ratio_sampling=('ratio', 1.0),
        replace_samples=('flag', False))
    # utilities
    add('normalize', ub.normalize_min_max, Y=('mat', Y))
    add('best by history', ub.get_best_acquisition_by_history, X=('mat', X), Y=('col', Y))
    add('best by evaluation', ub.get_best_acquisition_by_evaluation, initials=('mat', X),
        fun_objective=('fun', Calls()))
    add('next best', ub.get_next_best_acquisition, points=('rows', T), acquisitions=('same', mean),
        points_evaluated=('rows', X))
    add('acquisition name', ub.choose_fun_acquisition, str_acq=('name', 'ei'))
    add('in bounds', ub.check_points_in_bounds, points=('inside', T), bounds=('box', R))
    add('grids', uc.get_grids, ranges=('box', R), num_grids=('count', 2))
    add('minimum', uc.get_minimum, Y_all=('mat', r.randn(2, 4)), num_init=('ninit', 2))
    add('time', uc.get_time, time_all=('mat', r.rand(2, 4)), num_init=('ninit', 2),
        include_init=('flag', True))
    add('get_hyps', ucov.get_hyps, str_cov=('name', 'se'), dim=('count', d), use_gp=('flag', True),
        use_ard=('flag', True))
    add('get_range_hyps', ucov.get_range_hyps, str_cov=('name', 'se'), dim=('count', d),
        use_gp=('flag', True), use_ard=('flag', True), fix_noise=('flag', True))
    add('convert_hyps', ucov.convert_hyps, str_cov=('name', 'se'), hyps=('dict', h),
        use_gp=('flag', True), fix_noise=('flag', True))
    add('restore_hyps', ucov.restore_hyps, str_cov=('name', 'se'), hyps=('vec', v),
        use_gp=('flag', True), use_ard=('flag', True), fix_noise=('flag', True))
    # optimisers
    for tag, cls in (('gp', bo.BOwGP), ('tp', bo.BOwTP)):
        extra = {'str_optimizer_method_' + tag: ('name', 'L-BFGS-B')}
        if tag == 'gp':
            extra['str_modelselection_method'] = ('name', 'loocv')
        add('BO ' + tag, cls, range_X=('box', R), str_cov=('name', 'se'), str_acq=('name', 'ei'),
            normalize_Y=('flag', True), use_ard=('flag', True), prior_mu=('optfun', None),
            str_optimizer_method_bo=('name', 'L-BFGS-B'), str_exp=('optfun3', None),
            debug=('flag', False), **extra)
        model = cls(R)
        step = dict(X_train=('rows', X), Y_train=('col', Y), str_sampling_method=('name', 'sobol'),
                    num_samples=('pos', 2), seed=('seed', 3))
        if tag == 'gp':
            step['str_mlm_method'] = ('name', 'regular')
        add('step ' + tag, model.optimize, False, **step)
        add('acquisitions ' + tag, model.compute_acquisitions, X=('mat3', T), X_train=('rows', X),
            Y_train=('col', Y), cov_X_X=('sq', K), inv_cov_X_X=('sq', Ki),
            hyps=('dict', ht if tag == 'tp' else h))
        add('posteriors ' + tag, model.compute_posteriors, X_train=('rows', X), Y_train=('col', Y),
            X_test=('rows', T), cov_X_X=('sq', K), inv_cov_X_X=('sq', Ki),
            hyps=('dict', ht if tag == 'tp' else h))
    add('BO rf', bo.BOwTrees, range_X=('box', R), str_surrogate=('name', 'rf'),
        str_acq=('name', 'ei'), normalize_Y=('flag', True),
        str_optimizer_method_bo=('name', 'random_search'), debug=('flag', False))
    model = bo.BOwTrees(R)
    add('step rf', model.optimize, False, X_train=('rows', X), Y_train=('col', Y),
        str_sampling_method=('name', 'sobol'), num_samples=('pos', 2), seed=('seed', 3))
    add('samples', model.get_samples, str_sampling_method=('name', 'sobol'),
        num_samples=('count', 2), seed=('seed', 3))
    add('initials', model.get_initials, str_initial_method=('name', 'sobol'),
        num_initials=('count', 2), seed=('seed', 3))
    # loops: nothing may be evaluated
    add('! wrapper', w.BayesianOptimization, range_X=('box', R), fun_target=('fun', obj),
        num_iter=('pos', 1), str_surrogate=('name', 'gp'), str_cov=('name', 'se'),
        str_acq=('name', 'ei'), normalize_Y=('flag', True), use_ard=('flag', True),
        prior_mu=('optfun', None), str_initial_method_bo=('name', 'sobol'),
        str_sampling_method_ao=('name', 'sobol'), str_optimizer_method_gp=('name', 'BFGS'),
        str_optimizer_method_tp=('name', 'L-BFGS-B'), str_optimizer_method_bo=('name', 'L-BFGS-B'),
        str_mlm_method=('name', 'regular'), str_modelselection_method=('name', 'ml'),
        num_samples_ao=('pos', 2), debug=('flag', False))
    b = w.BayesianOptimization(R, obj, 1, num_samples_ao=1)
    add('! wrapper optimize', b.optimize, False, num_init=('pos', 2), seed=('seed', 3))
    add('! wrapper optimize_with_all', b.optimize_with_all_initial_information, False,
        X=('rows', X), Y=('col', Y))
    add('! wrapper optimize_with_inputs', b.optimize_with_initial_inputs, False, X=('wide', X))
    add('! wrapper single', b.optimize_single_iteration, False, X=('rows', X), Y=('col', Y))
    gm = bo.BOwGP(R)
    add('! run_all', w.run_single_round_with_all_initial_information, False, model_bo=('fun', gm),
        fun_target=('fun', obj), X_train=('rows', X), Y_train=('col', Y), num_iter=('count', 1),
        str_sampling_method_ao=('name', 'sobol'), num_samples_ao=('pos', 1),
        str_mlm_method=('name', 'regular'))
    add('! run_inputs', w.run_single_round_with_initial_inputs, False, model_bo=('fun', gm),
        fun_target=('fun', obj), X_train=('wide', X), num_iter=('count', 1),
        str_mlm_method=('name', 'regular'), str_sampling_method_ao=('name', 'sobol'),
        num_samples_ao=('pos', 1))
    add('! run', w.run_single_round, False, model_bo=('fun', gm), fun_target=('fun', obj),
        num_init=('pos', 2), num_iter=('count', 1), str_initial_method_bo=('name', 'sobol'),
        str_mlm_method=('name', 'regular'), seed=('seed', 3),
        str_sampling_method_ao=('name', 'sobol'), num_samples_ao=('pos', 1))
    add('! thompson step', ts.thompson_sampling_gp_iteration, False, range_X=('box', R),
        X=('rows', X), Y=('col', Y), normalize_Y=('flag', True),
        str_sampling_method=('name', 'sobol'), num_samples=('count', 4), debug=('flag', False))
    add('! thompson', ts.thompson_sampling_gp, False, range_X=('box', R), fun_target=('fun', obj),
        num_init=('pos', 2), num_iter=('count', 1), normalize_Y=('flag', True),
        str_sampling_method=('name', 'uniform'), num_samples=('count', 4), debug=('flag', False))
    return out


BREAK['thyps_'] = [k for k in BREAK['thyps'] if k not in ('drop_noise', 'noise_text')]
BREAK['optfun3'] = ['three']
BREAK['inside'] = BREAK['rows'] + ['outside_low', 'outside_high']
BREAK['ninit'] = BREAK['count'] + ['all', 'more']
BREAK['ratio'] = BREAK['real'] + ['zero_real', 'neg_real', 'two_real']
BREAK['mat3'] = ['list', 'none']


class Posterior:
    """A prior mean function returning an array of the wrong rank or length."""

    def __init__(self, how):
        self.how = how

    def __call__(self, X):
        return {'flat': np.zeros(X.shape[0]), 'short': np.zeros((X.shape[0] - 1, 1)),
                'list': [[0.0]] * X.shape[0]}[self.how]


def more_specs(c, obj):
    """Figures, rendering, trees and the remaining helpers."""
    import matplotlib
    matplotlib.use('Agg', force=True)
    import bayeso.covariance as cov
    from bayeso import bo, wrappers as w
    from bayeso.trees import trees_common as tc, trees_random_forest as tf
    from bayeso.utils import utils_bo as ub, utils_covariance as ucov, utils_gp as ug
    from bayeso.utils import utils_logger as ul, utils_plotting as up
    r = np.random.RandomState(c['r'])
    d, n, m = c['d'], c['n'], c['m']
    R = np.stack([r.rand(d) - 1, r.rand(d) + 1], axis=1)
    X = R[:, 0] + r.rand(n, d) * (R[:, 1] - R[:, 0])
    Y = r.randn(n, 1)
    T = R[:, 0] + r.rand(m, d) * (R[:, 1] - R[:, 0])
    h = {'noise': 0.1, 'signal': 1.5, 'lengthscales': r.rand(d) + 0.5}
    out = {}

    def add(name, fn, run=True, **args):
        out[name] = (fn, args, run)

    # figures
    x1, y1 = r.rand(n, 1), r.randn(n, 1)
    xs, mu, sd, ys, aq = (np.sort(r.rand(m, 1), axis=0), r.randn(m, 1), r.rand(m, 1),
                          r.randn(m, 1), r.rand(m, 1))
    axes = dict(str_x_axis=('str', 'x'), str_y_axis=('str', 'y'), use_tex=('flag', False),
                pause_figure=('flag', False), time_pause=('real_', 0.1),
                path_save=('optstr', None), str_postfix=('optstr', None))
    zero = dict(draw_zero_axis=('flag', False))
    shade = dict(range_shade=('real', 1.96))
    colors = dict(colors=('strings', np.array(['red', 'green', 'blue', 'k'])))
    add('plot samples', up.plot_gp_via_sample, X=('xcol', xs), Ys=('wide', r.randn(2, m)),
        **axes, **zero, **colors)
    add('plot posterior', up.plot_gp_via_distribution, X_train=('xcol', x1), Y_train=('col', y1),
        X_test=('xcol', xs), mean_test=('col', mu), std_test=('col', sd), Y_test=('optcol', ys),
        **axes, **zero, **shade, **colors)
    for name, fn, extra in (
            ('plot step', up.plot_bo_step, {}),
            ('plot step with acquisition', up.plot_bo_step_with_acq,
             dict(acq_test=('col', aq), str_acq_axis=('str', 'a')))):
        add(name, fn, X_train=('xcol', x1), Y_train=('col', y1), X_test=('xcol', xs),
            Y_test=('col', ys), mean_test=('col', mu), std_test=('col', sd),
            num_init=('num_init', 2), **axes, **zero, **shade, **extra)
    lab = ['a', 'b']
    mi = np.minimum.accumulate(r.randn(2, 3, 5), axis=2)
    ti = np.cumsum(r.rand(2, 3, 5), axis=2)
    curve = dict(list_str_label=('labels', lab), num_init=('num_init9', 2),
                 draw_std=('flag', True), include_marker=('flag', True),
                 include_legend=('flag', True),
                 markers=('strings', np.array(['.', 'x', '*'])), **axes, **shade, **colors)
    add('plot minimum by iteration', up.plot_minimum_vs_iter, minima=('tensor_', mi), **curve)
    add('plot minimum by time', up.plot_minimum_vs_time, times=('tensor', ti),
        minima=('tensor', mi), **curve)
    # rendering
    add('logger', ul.get_logger, str_name=('str', 'c26'))
    add('render 1', ul.get_str_array_1d, arr=('r1', r.randn(3)))
    add('render 2', ul.get_str_array_2d, arr=('r2', r.randn(3, 2)))
    add('render 3', ul.get_str_array_3d, arr=('r3', r.randn(2, 3, 2)))
    add('render', ul.get_str_array, arr=('r123', r.randn(2, 3, 2)))
    add('render hyps', ul.get_str_hyps, hyps=('dict', h))
    # trees
    leaf = [(X[i], Y[i]) for i in range(n)]
    add('leaf inputs', tc.get_inputs_from_leaf, leaf=('leaf', leaf))
    add('leaf outputs', tc.get_outputs_from_leaf, leaf=('leaf', leaf))
    add('leaf mse', tc.mse, left_right=('pair', (leaf, leaf)))
    add('split', tc.split, False, node=('dict', tc._split(X, Y, 1, True)),
        depth_max=('count', 3), size_min_leaf=('count', 1), num_features=('count', 1),
        split_random_location=('flag', True), cur_depth=('pos', 1))
    st_ = np.random.get_state()
    np.random.seed(c['r'] % 2**31)
    trees = tf.get_random_forest(X, Y, 2, 3, 1, 1)
    np.random.set_state(st_)
    add('unit forest predict', tc.unit_predict_by_trees, X=('mat_', T), list_trees=('lst', trees))
    add('forest predict', tc.predict_by_trees, X=('mat_', T), list_trees=('lst', trees))
    add('combine', tc.compute_sigma, preds_mu_leaf=('vec', r.randn(3)),
        preds_sigma_leaf=('same', r.rand(3)), min_sigma=('real', 0.0))
    model = bo.BOwTrees(R)
    add('forest trees', model.get_trees, False, X_train=('mat', X), Y_train=('col', Y),
        num_trees=('count', 2), depth_max=('count', 3), size_min_leaf=('count', 1))
    add('forest posteriors', model.compute_posteriors, X=('wide', T), trees=('lst', trees))
    add('forest acquisitions', model.compute_acquisitions, X=('wide_', T), X_train=('wide', X),
        Y_train=('col', Y), trees=('lst', trees))
    # helpers
    add('prior', ug.get_prior_mu, prior_mu=('optfun_', None), X=('mat', X))
    add('common args', ug.validate_common_args, X_train=('mat', X), Y_train=('col_', Y),
        str_cov=('str', 'se'), prior_mu=('optfun', None), debug=('flag', False),
        X_test=('rows_', T))
    add('validate dict', ucov.validate_hyps_dict, hyps=('ghyps_', h), str_cov=('name', 'se'),
        dim=('count', d), use_gp=('flag', True))
    add('check str_cov', ucov.check_str_cov, str_fun=('str', 'f'), str_cov=('name', 'se'),
        shape_X1=('shape', (n, d)), shape_X2=('shape', (m, d)))
    add('check str_cov set', ucov.check_str_cov, str_fun=('str', 'f'), str_cov=('name', 'set_se'),
        shape_X1=('shape3', (n, 2, d)), shape_X2=('shape3', (m, 2, d)))
    add('choose cov', cov.choose_fun_cov, str_cov=('name', 'matern32'))
    add('choose grad cov', cov.choose_fun_grad_cov, str_cov=('name', 'matern32'))
    add('set cov', cov.cov_set, str_cov=('name', 'se'), X=('bag', X), Xp=('bag', T),
        lengthscales=('colm', h['lengthscales']), signal=('real', 1.5))
    for name in ('se', 'matern32', 'matern52'):
        add('grad_cov_' + name, getattr(cov, 'grad_cov_' + name),
            cov_X_Xp=('mat', cov.cov_main(name, X, X, h, True)), X=('rows', X), Xp=('rows', X),
            hyps=('hyps', h), num_hyps=('count', d + 1), fix_noise=('flag', True))
    add('optimizer name', ub.check_optimizer_method_bo, str_optimizer_method_bo=('name', 'CMA-ES'),
        dim=('count', d), debug=('flag', False))
    add('convergence', ub.check_hyps_convergence, list_hyps=('lst', [h]), hyps=('dict', h),
        str_cov=('name', 'se'), fix_noise=('flag', True), ratio_threshold=('real', 0.05))
    add('acquisition with noise', ub.choose_fun_acquisition, str_acq=('name', 'aei'),
        noise=('real', 0.1))
    # constructors
    for tag, cls in (('gp', bo.BOwGP), ('tp', bo.BOwTP)):
        add('BO+ ' + tag, cls, range_X=('box', R), str_exp=('optstr', None),
            str_optimizer_method_bo=('opt_p', 'L-BFGS-B'))
    add('BO+ rf', bo.BOwTrees, range_X=('box', R), str_exp=('optstr', None),
        str_optimizer_method_bo=('opt_f', 'random_search'))
    for sur, kind, opt in (('gp', 'opt_p', 'L-BFGS-B'), ('tp', 'opt_p', 'CMA-ES'),
                           ('rf', 'opt_f', 'random_search')):
        add('! wrapper+ ' + sur, w.BayesianOptimization, False, range_X=('box', R),
            fun_target=('fun', obj), num_iter=('pos', 1), str_surrogate=('name', sur),
            str_exp=('optstr', None), str_optimizer_method_bo=(kind, opt),
            str_initial_method_bo=('initial', 'sobol'))
    b = w.BayesianOptimization(R, obj, 1, str_surrogate='rf', num_samples_ao=1,
                               str_optimizer_method_bo='random_search')
    add('! forest wrapper optimize', b.optimize, False, num_init=('pos', 2), seed=('seed', 3))
    add('! forest wrapper optimize_with_all', b.optimize_with_all_initial_information, False,
        X=('wide', X), Y=('col', Y))
    add('! forest wrapper optimize_with_inputs', b.optimize_with_initial_inputs, False,
        X=('wide', X))
    add('! forest wrapper single', b.optimize_single_iteration, False, X=('wide', X),
        Y=('col', Y))
    return out


BREAK['str'] = ['three', 'none']
BREAK['optstr'] = ['three', 'list_']
BREAK['real_'] = ['text', 'none']
BREAK['xcol'] = ['list', 'none', 'flat', 'cube', 'short', 'long', 'twocol']
BREAK['optcol'] = ['list', 'flat', 'cube', 'short', 'long', 'twocol']
BREAK['strings'] = ['list', 'none']
BREAK['labels'] = ['none', 'tuple', 'short', 'long']
BREAK['num_init'] = ['float', 'text', 'more']
BREAK['num_init9'] = ['float', 'text', 'none', 'more']
BREAK['tensor_'] = ['list', 'none', 'plane', 'four', 'short', 'long']
BREAK['tensor'] = BREAK['tensor_'] + ['fewer_runs', 'fewer_steps']
BREAK['r1'] = ['list', 'none', 'col']
BREAK['r2'] = ['list', 'none', 'flat', 'cube']
BREAK['r3'] = ['list', 'none', 'plane', 'four']
BREAK['r123'] = ['list', 'none', 'four']
BREAK['leaf'] = ['none', 'tuple']
BREAK['pair'] = ['none', 'list_']
BREAK['mat_'] = BREAK['mat']
BREAK['lst'] = ['none', 'tuple']
BREAK['wide_'] = ['list', 'none', 'widen', 'narrow']
BREAK['col_'] = [k for k in BREAK['col'] if k != 'twocol']
BREAK['rows_'] = [k for k in BREAK['rows'] if k != 'none']
BREAK['ghyps_'] = BREAK['ghyps']
BREAK['optfun_'] = ['three', 'text', 'returns_flat', 'returns_short', 'returns_list']
BREAK['shape'] = ['list_', 'tall']
BREAK['shape3'] = ['list_', 'flat_']
BREAK['bag'] = ['list', 'none', 'flat', 'cube', 'widen', 'narrow']
BREAK['opt_p'] = ['unknown', 'three', 'none', 'forest_optimizer']
BREAK['opt_f'] = ['unknown', 'three', 'none', 'process_optimizer']
BREAK['initial'] = ['unknown', 'three', 'none', 'grid']
# no-ops (flattening a vector) and multi-column responses, which the GP and TP routines do not
# check (the fits fail on them by accident)
EXEMPT = {(n, 'lengthscales', 'flat') for n in ('cov_se', 'cov_matern32', 'cov_matern52')} | {
    (n, 'Y_train', 'twocol') for n in ('gp predict_with_hyps', 'gp predict_with_cov',
                                       'gp neg_log_ml', 'gp neg_log_pseudo_l_loocv',
                                       'tp predict_with_hyps', 'tp predict_with_cov',
                                       'tp neg_log_ml', 'gp get_optimized_kernel',
                                       'tp get_optimized_kernel',
                                       'gp predict_with_optimized_hyps',
                                       'tp predict_with_optimized_hyps')}
# three axes are what sets have; these routines cannot tell
EXEMPT |= {('set cov', 'lengthscales', 'flat'), ('forest acquisitions', 'X_train', 'cube'), ('prior', 'X', 'cube'),
           ('common args', 'X_test', 'cube')}


def menu(factory):
    """All (entry point, argument, breakage) combinations, from a fixed example."""
    out = []
    for name, (_, args, _) in factory({'r': 0, 'd': 2, 'n': 4, 'm': 3}, Calls()).items():
        for a, (kind, _) in args.items():
            if kind is None:
                continue
            for how in BREAK[kind]:
                if (name, a, how) not in EXEMPT:
                    out.append([name, a, how])
    return out


MENU = {}


def cases(factory):
    @g.strat
    def gen(draw):
        if factory not in MENU:
            MENU[factory] = menu(factory)
        name, a, how = draw(st.sampled_from(MENU[factory]))
        return {'entry': name, 'arg': a, 'how': how, 'd': draw(st.integers(2, 4)),
                'n': draw(st.integers(3, 6)), 'm': draw(st.integers(2, 5)),
                'r': draw(st.integers(0, 10**6))}
    return gen


def check(c, factory):
    obj = Calls()
    fn, args, run = factory(c, obj)[c['entry']]
    kind, v = args[c['arg']]
    good = {k: x for k, (_, x) in args.items()}
    bad = dict(good)
    bad[c['arg']] = broken(v, c['how'])
    try:
        fn(**bad)
    except Exception:  # noqa: BLE001
        pass
    else:
        ensure(False, '%s accepted %s malformed as %r', c['entry'], c['arg'], c['how'])
    ensure(obj.n == 0, '%s evaluated the objective %d times before rejecting %s (%s)',
           c['entry'], obj.n, c['arg'], c['how'])
    if run:
        call(fn, **good)
    return {'labels': [c['entry'], c['how']]}


RULE = 'every case malforms one argument of one entry point'


@PROP.sub(cases(specs), 9000, 60000, None, RULE)
def rejected(c):
    return check(c, specs)


@PROP.sub(cases(more_specs), 5500, 40000, None, RULE)
def rejected_more(c):
    import matplotlib.pyplot as plt
    try:
        return check(c, more_specs)
    finally:
        plt.close('all')


@g.strat
def gen_near(draw):
    d = g.size(draw, 4, 9)
    R = g.ranges(draw, d, degenerate=g.chance(draw, 15), wide=g.chance(draw, 30))
    A = np.array(R)
    return {'range': R, 'P': g.points(draw, g.size(draw, 5, 40), d, lo=A[:, 0], hi=A[:, 1]),
            'who': g.pick(draw, 'points', 'points', 'gp', 'tp', 'rf', 'wrapper', 'grids'),
            'row': draw(st.integers(0, 39)), 'dim': draw(st.integers(0, d - 1)),
            'by': g.pick(draw, 1e-6, 1e-3, 0.5, 1.0, 30.0, float('nan')),
            'side': g.pick(draw, 'low', 'high')}


@PROP.sub(gen_near, 4000, 50000, lambda c: len(c['range']) > 1, 'several dimensions')
def near_miss(c):
    """One coordinate or one bound is wrong, possibly by little; the others are right."""
    from bayeso import bo, wrappers as w
    from bayeso.utils import utils_bo, utils_common
    R, P = g.A(c['range']), g.A(c['P'])
    k, high = c['dim'], c['side'] == 'high'
    by = c['by'] if c['by'] != c['by'] else \
        c['by'] * max(1e-3 * np.abs(R[k]).max(), R[k, 1] - R[k, 0], 1e-6)
    if c['who'] == 'points':
        got = call(utils_bo.check_points_in_bounds, P, R)
        ensure(np.array_equal(got, P), 'points inside the bounds are not returned unchanged')
        i = c['row'] % len(P)
        bad = P.copy()
        bad[i, k] = R[k, 1] + by if high else R[k, 0] - by
        try:
            utils_bo.check_points_in_bounds(bad, R)
        except Exception:  # noqa: BLE001
            return {'labels': ['points']}
        ensure(False, 'point %d, coordinate %d is %r, the bounds are %s: accepted', i, k,
               bad[i, k], R[k])
    bad = R.copy()
    if by != by:
        bad[k, int(high)] = by
    elif high:
        bad[k, 0] = R[k, 1] + by
    else:
        bad[k, 1] = R[k, 0] - by
    obj = Calls()
    make = {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': lambda B: bo.BOwTrees(B),
            'wrapper': lambda B: w.BayesianOptimization(B, obj, 1),
            'grids': lambda B: utils_common.get_grids(B, 2)}[c['who']]
    call(make, R)
    try:
        make(bad)
    except Exception:  # noqa: BLE001
        ensure(obj.n == 0, 'the objective was evaluated')
        return {'labels': [c['who']]}
    ensure(False, '%s accepted the range %s in dimension %d', c['who'], bad[k], k)
