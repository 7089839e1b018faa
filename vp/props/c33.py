"""C33: an omitted option is the option at its documented default."""
import logging

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp.core import Entropy, Prop, call, ensure
from vp.props import c22, c32

PROP = Prop('C33', 'Omitted options take their documented defaults', [
    'The documented defaults are those of the reference documentation (signatures and constants '
    'of version 0.6.0), written down in this check.',
])
COV = ('matern52', 'se', 'eq', 'matern32')
FLAG_T, FLAG_F = (True, False), (False, True)
ACQ = ('ei', 'pi', 'ucb', 'aei', 'pure_exploit', 'pure_explore')
GPO = ('BFGS', 'L-BFGS-B', 'SLSQP-Bounded')
SAMPLING = ('sobol', 'uniform', 'halton', 'gaussian')
MLM = ('regular', 'combined')


def cubic(x):
    return x.reshape(len(x), -1).sum(axis=1, keepdims=True) ** 3


PRIOR = (None, cubic)


class Objective:
    def __call__(self, x):
        return float(np.sum(np.sin(3 * np.asarray(x))) + np.sum(x))


def entries(c):
    """name -> (function of the options only, {option: (default, other values...)})."""
    import bayeso.acquisition as acq
    import bayeso.covariance as cov
    from bayeso import bo, thompson_sampling as ts, wrappers as w
    from bayeso.gp import gp, gp_kernel, gp_likelihood
    from bayeso.tp import tp, tp_kernel, tp_likelihood
    from bayeso.trees import trees_common as tc
    from bayeso.utils import utils_bo as ub, utils_covariance as uc, utils_common as um
    r = np.random.RandomState(c['r'])
    d, n, m = c['d'], c['n'], c['m']
    R = np.stack([r.rand(d) - 1, r.rand(d) + 1], axis=1)
    X = R[:, 0] + r.rand(n, d) * (R[:, 1] - R[:, 0])
    Y = r.randn(n, 1) * c['scale'] + c['offset']
    T = R[:, 0] + r.rand(m, d) * (R[:, 1] - R[:, 0])
    h = {'noise': 0.1, 'signal': 1.5, 'lengthscales': r.rand(d) + 0.5}
    ht = dict(h, dof=5.0)
    K = cov.cov_main('se', X, X, h, True) + 0.01 * np.eye(n)
    Ki = np.linalg.inv(K)
    mean, std = r.randn(m) * c['scale'] + c['offset'], r.rand(m) * c['scale']
    std[0] = 0.0
    M = np.zeros((n, 1)) + c['offset']
    f = Objective()
    out = {}

    def add(name, fn, **options):
        out[name] = (fn, options)

    for a in ('pi', 'ei'):
        add(a, lambda a=a, **k: getattr(acq, a)(mean, std, Y, **k), jitter=(1e-5, 1e-2))
    add('aei', lambda **k: acq.aei(mean, std, Y, 0.1, **k), jitter=(1e-5, 1e-2))
    add('ucb', lambda **k: acq.ucb(mean, std, **k), Y_train=(None, Y), kappa=(2.0, 0.5),
        increase_kappa=FLAG_T)
    for q in ('inverse', 'cholesky'):
        add('kernel ' + q, lambda q=q, **k: getattr(cov, 'get_kernel_' + q)(X, h, c['cov'], **k),
            fix_noise=FLAG_T, use_gradient=FLAG_F, debug=FLAG_F)
    add('cov_main', lambda **k: cov.cov_main(c['cov'], X, X, h, True, **k), jitter=(1e-5, 1e-2))
    add('cov_main cross', lambda **k: cov.cov_main(c['cov'], X, T, h, False, **k),
        jitter=(1e-5, 1e-2))
    add('grad_cov_main', lambda **k: cov.grad_cov_main(c['cov'], X, X, h, c['flag'], **k),
        same_X_Xp=(True,), jitter=(1e-5, 1e-2))
    for tag, mod, hy in (('gp', gp, h), ('tp', tp, ht)):
        add(tag + ' predict_with_cov', lambda mod=mod, hy=hy, **k: mod.predict_with_cov(
            X, Y, T, K, Ki, hy, **k), str_cov=COV, prior_mu=PRIOR, debug=FLAG_F)
        add(tag + ' predict_with_hyps', lambda mod=mod, hy=hy, **k: mod.predict_with_hyps(
            X, Y, T, hy, **k), str_cov=COV, prior_mu=PRIOR, debug=FLAG_F)
        add(tag + ' predict_with_optimized_hyps',
            lambda mod=mod, **k: mod.predict_with_optimized_hyps(X, Y, T, **k), str_cov=COV,
            str_optimizer_method=GPO if tag == 'gp' else ('SLSQP', 'L-BFGS-B'), prior_mu=PRIOR,
            fix_noise=FLAG_T, debug=FLAG_F)
    add('gp sample_functions', lambda **k: gp.sample_functions(Y[:, 0], K, **k),
        num_samples=(1, 3))
    add('tp sample_functions', lambda **k: tp.sample_functions(4.0, Y[:, 0], K, **k),
        num_samples=(1, 3))
    add('gp get_optimized_kernel',
        lambda **k: gp_kernel.get_optimized_kernel(X, Y, None, c['cov'], **k),
        str_optimizer_method=GPO, str_modelselection_method=('ml', 'loocv'), use_ard=FLAG_T,
        fix_noise=FLAG_T, debug=FLAG_F)
    add('tp get_optimized_kernel',
        lambda **k: tp_kernel.get_optimized_kernel(X, Y, None, c['cov'], **k),
        str_optimizer_method=('SLSQP', 'L-BFGS-B'), use_ard=FLAG_T, fix_noise=FLAG_T,
        debug=FLAG_F)

    def vector(k, dof=False, noise=True):
        ls = [0.7] * d if k.get('use_ard', True) else [0.7]
        return np.array(([0.3] if noise and not k.get('fix_noise', True) else []) +
                        ([5.0] if dof else []) + [1.2] + ls)
    add('gp neg_log_ml', lambda **k: gp_likelihood.neg_log_ml(X, Y, vector(k), c['cov'], M, **k),
        use_ard=FLAG_T, fix_noise=FLAG_T, use_cholesky=FLAG_T, use_gradient=FLAG_T, debug=FLAG_F)
    add('gp loocv', lambda **k: gp_likelihood.neg_log_pseudo_l_loocv(
        X, Y, vector(k), c['cov'], M, **k), fix_noise=FLAG_T, debug=FLAG_F, use_ard=FLAG_T)
    add('tp neg_log_ml', lambda **k: tp_likelihood.neg_log_ml(
        X, Y, vector(k, True), c['cov'], M, **k), use_ard=FLAG_T, fix_noise=FLAG_T,
        use_gradient=FLAG_T, debug=FLAG_F)
    add('compute_sigma', lambda **k: tc.compute_sigma(
        np.abs(mean), std, **k), min_sigma=(0.0, 0.5))
    add('choose_fun_acquisition', lambda **k: ub.choose_fun_acquisition(c['acq'], **k)(
        mean, std, Y) if c['acq'] != 'aei' else None, noise=(None, 0.2))
    add('check_hyps_convergence', lambda **k: ub.check_hyps_convergence(
        [dict(h, signal=1.5 * (1 + c['drift']), lengthscales=h['lengthscales'] *
              (1 + c['drift']))], h, 'se', c['flag'], **k), ratio_threshold=(0.05, 0.2))
    add('get_hyps', lambda **k: uc.get_hyps('se', d, **k), use_gp=FLAG_T, use_ard=FLAG_T)
    add('get_range_hyps', lambda **k: uc.get_range_hyps('se', d, **k), use_gp=FLAG_T,
        use_ard=FLAG_T, fix_noise=FLAG_F)
    add('convert_hyps', lambda **k: uc.convert_hyps('se', ht, **k), use_gp=FLAG_T,
        fix_noise=FLAG_F)

    def back(**k):
        v = ([0.3] if not k.get('fix_noise', False) else []) + \
            ([] if k.get('use_gp', True) else [5.0]) + [1.2] + \
            ([0.7] * d if k.get('use_ard', True) else [0.7])
        return uc.restore_hyps('se', np.array(v), **k)
    add('restore_hyps', back, use_gp=FLAG_T, use_ard=FLAG_T, fix_noise=FLAG_F, noise=(0.01, 0.5))
    add('validate_hyps_dict', lambda **k: uc.validate_hyps_dict(dict(ht), 'se', d, **k),
        use_gp=FLAG_T)

    # optimisers: an option of the constructor shows in the designs and a step
    def step(cls, k, short):
        b = cls(R.copy(), **k)
        return b.get_samples('sobol', num_samples=4, seed=1), c22.no_times(
            b.optimize(X, Y, **short))
    short = dict(str_sampling_method='uniform', num_samples=2, seed=4)
    shared = dict(str_cov=COV, str_acq=ACQ, normalize_Y=FLAG_T, use_ard=FLAG_T, prior_mu=PRIOR,
                  str_optimizer_method_bo=('L-BFGS-B',), str_exp=(None, 'lab'), debug=FLAG_F)
    add('BOwGP', lambda **k: step(bo.BOwGP, k, short), str_optimizer_method_gp=GPO,
        str_modelselection_method=('ml', 'loocv'), **shared)
    add('BOwTP', lambda **k: step(bo.BOwTP, k, short),
        str_optimizer_method_tp=('SLSQP', 'L-BFGS-B'), **shared)
    rf = dict(str_sampling_method='sobol', num_samples=8, seed=4)
    add('BOwTrees', lambda **k: step(bo.BOwTrees, k, rf), str_surrogate=('rf',), str_acq=ACQ,
        normalize_Y=FLAG_T, str_optimizer_method_bo=('random_search',), str_exp=(None, 'lab'),
        debug=FLAG_F)
    add('step gp', lambda **k: c22.no_times(bo.BOwGP(R).optimize(X, Y, **k)),
        str_sampling_method=SAMPLING, num_samples=(128, 3), str_mlm_method=MLM, seed=(None, 7))
    add('step tp', lambda **k: c22.no_times(bo.BOwTP(R).optimize(X, Y, **k)),
        str_sampling_method=SAMPLING, num_samples=(128, 3), seed=(None, 7))
    add('step rf', lambda **k: c22.no_times(bo.BOwTrees(R).optimize(X, Y, **k)),
        str_sampling_method=('uniform', 'sobol'), num_samples=(5000, 3), seed=(None, 7))
    add('get_trees', lambda **k: bo.BOwTrees(R).get_trees(X, Y, **k), num_trees=(100, 2),
        depth_max=(5, 1), size_min_leaf=(1, 3))
    add('get_samples', lambda **k: bo.BOwGP(R).get_samples(c['method'], **k),
        num_samples=(128, 5), seed=(None, 7))
    add('get_initials', lambda **k: bo.BOwTP(R).get_initials(c['method'], 5, **k),
        seed=(None, 7))

    # loops
    def loop(first=2, **k):
        b = w.BayesianOptimization(R.copy(), f, 2, num_samples_ao=k.pop('num_samples_ao', 2), **k)
        return b.optimize(first, seed=5)[:2]
    add('wrapper gp', lambda **k: loop(**k), str_surrogate=('gp',), str_cov=COV, str_acq=ACQ,
        normalize_Y=FLAG_T, use_ard=FLAG_T, prior_mu=PRIOR, str_initial_method_bo=SAMPLING,
        str_sampling_method_ao=SAMPLING, str_optimizer_method_gp=GPO,
        str_optimizer_method_bo=('L-BFGS-B',), str_mlm_method=MLM,
        str_modelselection_method=('ml', 'loocv'), str_exp=(None, 'lab'), debug=FLAG_F)
    add('wrapper tp', lambda **k: loop(str_surrogate='tp', **k), str_cov=COV, str_acq=ACQ,
        normalize_Y=FLAG_T, use_ard=FLAG_T, prior_mu=PRIOR, str_initial_method_bo=SAMPLING,
        str_sampling_method_ao=SAMPLING, str_optimizer_method_tp=('SLSQP', 'L-BFGS-B'),
        str_optimizer_method_bo=('L-BFGS-B',), str_exp=(None, 'lab'), debug=FLAG_F)
    add('wrapper candidates', lambda **k: w.BayesianOptimization(R, f, 1, **k).optimize(
        3, seed=5)[:2], num_samples_ao=(128, 3), str_sampling_method_ao=SAMPLING)
    add('wrapper seed', lambda **k: w.BayesianOptimization(R, f, 1, num_samples_ao=2).optimize(
        3, **k)[:2], seed=(None, 7))
    ao = dict(str_sampling_method_ao=SAMPLING, num_samples_ao=(128, 3), str_mlm_method=MLM)
    add('run_all', lambda **k: w.run_single_round_with_all_initial_information(
        bo.BOwGP(R), f, X, Y, 1, **k)[:2], **ao)
    add('run_inputs', lambda **k: w.run_single_round_with_initial_inputs(
        bo.BOwGP(R), f, X, 1, **k)[:2], **ao)
    add('run', lambda **k: w.run_single_round(bo.BOwGP(R), f, 3, 1, **k)[:2],
        str_initial_method_bo=SAMPLING, seed=(None, 7), **ao)
    add('thompson step', lambda **k: ts.thompson_sampling_gp_iteration(R, X, Y, **k),
        normalize_Y=FLAG_T, str_sampling_method=SAMPLING, num_samples=(200, 5), debug=FLAG_F)
    add('thompson', lambda **k: ts.thompson_sampling_gp(R, f, 2, 2, **k)[:2],
        normalize_Y=FLAG_T, str_sampling_method=('uniform', 'sobol', 'halton'),
        num_samples=(200, 5), debug=FLAG_F)
    return out


SLOW = {'step gp', 'step tp', 'step rf', 'wrapper candidates', 'run_all', 'run_inputs', 'run',
        'BOwGP', 'BOwTP', 'BOwTrees', 'wrapper gp', 'wrapper tp', 'thompson', 'get_trees',
        'wrapper seed', 'thompson step'}
NAMES = {}


def case(draw, slow):
    if not NAMES:
        for k, (_, o) in entries(dict(r=0, d=2, n=4, m=3, scale=1.0, offset=0.0, cov='se',
                                         flag=True, acq='ei', drift=0.1, method='sobol')).items():
            NAMES[k] = {a: len(v) for a, v in o.items()}
    name = draw(st.sampled_from(sorted(k for k in NAMES if (k in SLOW) == slow)))
    options = NAMES[name]
    omit = draw(st.lists(st.sampled_from(sorted(options)), min_size=1, max_size=len(options),
                         unique=True))
    if g.chance(draw, 25):
        omit = sorted(options)
    given = {k: draw(st.integers(0, n - 1)) for k, n in sorted(options.items()) if k not in omit}
    return {'name': name, 'omit': sorted(omit), 'given': given, 'd': draw(st.integers(1, 3)),
            'n': draw(st.integers(3, 8)), 'm': draw(st.integers(2, 5)),
            'r': draw(st.integers(0, 10**6)), 'scale': g.pick(draw, 1.0, 1e-2, 30.0),
            'offset': g.pick(draw, 0.0, 5.0, -40.0), 'cov': g.pick(draw, *COV),
            'flag': draw(st.booleans()), 'acq': g.pick(draw, 'ei', 'pi', 'ucb'),
            'drift': draw(st.floats(0, 0.3)), 'method': g.pick(draw, *SAMPLING),
            'e': draw(st.integers(0, 10**6))}


@g.strat
def gen_fast(draw):
    return case(draw, False)


@g.strat
def gen_slow(draw):
    return case(draw, True)


class Records:
    """Number of log records, which stay unprinted."""

    def __enter__(self):
        self.n = 0
        self.inner = inner = logging.Logger.handle

        def handle(logger, record):
            self.n += 1
        logging.Logger.handle = handle
        return self

    def __exit__(self, *exc):
        logging.Logger.handle = self.inner
        return False


def outcome(fn, kw, e):
    with Entropy(e), Records() as rec:
        try:
            return fn(**kw), rec.n, None
        except (np.linalg.LinAlgError, ValueError) as exc:
            # an unbounded fit may leave the positive-definite range
            return None, rec.n, type(exc)


def check(c):
    fn, options = entries(c)[c['name']]
    given = {k: options[k][i] for k, i in c['given'].items()}
    a = call(outcome, fn, given, c['e'])
    fn, options = entries(c)[c['name']]
    full = dict(given, **{k: options[k][0] for k in c['omit']})
    b = call(outcome, fn, full, c['e'])
    what = '%s without %s' % (c['name'], ', '.join(c['omit']))
    ensure(a[2] == b[2], '%s: %s, with the documented defaults: %s', what, a[2], b[2])
    ensure(a[1] == b[1], '%s: %d log messages, with the documented defaults: %d', what, a[1], b[1])
    ensure(c32.alike(a[0], b[0], 0.0) and c32.alike(b[0], a[0], 0.0),
           '%s differs from the call with the documented defaults', what)
    return {'labels': [c['name']]}


@PROP.sub(gen_fast, 5000, 60000, lambda c: True,
          'every case omits at least one option that the other call gives explicitly')
def routines(c):
    return check(c)


@PROP.sub(gen_slow, 480, 8000, lambda c: True,
          'every case omits at least one option that the other call gives explicitly')
def objects(c):
    return check(c)
