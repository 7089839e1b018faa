"""C24: the three model-selection schedules of GP-based optimisation, over histories of steps."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C24', 'Hyperparameter schedules fit, combine and freeze as documented', [
    'The reference fits are the library\'s own single fits (decided separately), so this check '
    'decides which fit is used when; two fits are taken as equal when the vectors agree to 1e-3 '
    'or their marginal likelihoods to 1e-6.',
    'A history is cut short when a change of hyperparameters is within 1 % of the convergence '
    'threshold, or when an unbounded fit diverges.',
])


def vec(h, fix_noise=True):
    v = ([] if fix_noise else [h['noise']]) + [h['signal']] + list(np.ravel(h['lengthscales']))
    return np.array(v, float)


@g.strat
def gen(draw):
    d = g.size(draw, 2, 3)
    A = np.tile([[0.0, 1.0]], (d, 1)) * g.pick(draw, 1.0, 5.0)
    n = g.size(draw, 6, 14, low=2)
    r = g.rnd(draw)
    steps = []
    X = A[:, 0] + r.rand(n, d) * (A[:, 1] - A[:, 0])
    w = r.randn(d)

    def f(X):
        return (np.sin(3 * X / A[:, 1]) @ w)[:, None] * 1.5 + 0.05 * r.randn(len(X), 1)
    Y = f(X)
    for _ in range(g.size(draw, 6, 14, low=2)):
        steps.append({'X': X.round(4).tolist(), 'Y': Y.round(4).tolist(),
                      'mode': g.pick(draw, 'converged', 'converged', 'converged', 'regular',
                                     'combined'),
                      'seed': draw(st.integers(0, 999))})
        change = g.pick(draw, 'same', 'add', 'add', 'nudge', 'new')
        if change == 'add':
            x = A[:, 0] + r.rand(1, d) * (A[:, 1] - A[:, 0])
            X, Y = np.vstack([X, x]), np.vstack([Y, f(x)])
        elif change == 'nudge':
            Y = Y + 0.02 * r.randn(*Y.shape)
        elif change == 'new':
            X = A[:, 0] + r.rand(len(X), d) * (A[:, 1] - A[:, 0])
            Y = f(X) * g.pick(draw, 1.0, 3.0)
    return {'range': A.tolist(), 'steps': steps, 'norm': g.chance(draw, 70),
            'cov': g.pick(draw, 'matern52', 'se', 'matern32'), 'ard': g.chance(draw, 65),
            'fit': g.pick(draw, 'L-BFGS-B', 'L-BFGS-B', 'BFGS', 'SLSQP-Bounded'),
            'crit': g.pick(draw, 'ml', 'ml', 'loocv'), 'prior': g.prior(draw, p_none=70),
            'exp': g.pick(draw, None, 'lab'),
            # steps before which another optimiser of the same settings takes a step of its own
            'others': [i for i in range(len(steps)) if g.chance(draw, 50)]
            if g.chance(draw, 30) else []}


def nlml(c, X, Y, h):
    K = ref.train_cov(c['cov'], X, h)
    y = Y - g.prior_vals(c['prior'], X)
    return float(0.5 * np.linalg.slogdet(K)[1] + 0.5 * y[:, 0] @ np.linalg.solve(K, y[:, 0])) / len(X)


def agree(c, X, Y, h, w):
    a, b = vec(h), vec(w)
    if a.shape == b.shape and np.linalg.norm(a - b) <= 1e-3 * np.linalg.norm(b) + 1e-9:
        return True
    return abs(nlml(c, X, Y, h) - nlml(c, X, Y, w)) < 1e-6


def meanwhile(c, other, i):
    """A step of another optimiser, which must not matter."""
    s = c['steps'][i]
    try:
        other.optimize(g.A(s['X']), g.A(s['Y']) * (1.0, -1.0)[i % 2], num_samples=1,
                       str_sampling_method='uniform', str_mlm_method=s['mode'], seed=i)
    except (np.linalg.LinAlgError, ValueError) as exc:
        if not diverged(exc):
            raise


def diverged(exc):
    return 'ingular' in str(exc) or 'jitter_cov' in str(exc)


@PROP.sub(gen, 360, 7000, lambda c: len(c['steps']) > 1, 'at least two steps on one optimiser')
def schedule(c):
    from bayeso import bo
    from bayeso.gp import gp_kernel
    R = g.A(c['range'])

    def make():
        return call(bo.BOwGP, R, str_cov=c['cov'], normalize_Y=c['norm'], use_ard=c['ard'],
                    prior_mu=g.prior_fn(c['prior']), str_optimizer_method_gp=c['fit'],
                    str_modelselection_method=c['crit'], str_exp=c.get('exp'))
    others = c.get('others', [])
    other = make() if others else None
    if 0 in others:
        meanwhile(c, other, 0)
    model = make()

    def fit(X, Y, method):
        return gp_kernel.get_optimized_kernel(
            X, Y, g.prior_fn(c['prior']), c['cov'], str_optimizer_method=method,
            str_modelselection_method=c['crit'], use_ard=c['ard'])[2]
    history, frozen, labels = [], False, set()
    for i, s in enumerate(c['steps']):
        X, Y, mode = g.A(s['X']), g.A(s['Y']), s['mode']
        if i and i in others:
            meanwhile(c, other, i)
        Yu = Y
        if c['norm'] and mode != 'converged' and Y.max() > Y.min():
            Yu = (Y - Y.min()) / (Y.max() - Y.min()) * 10.0
        try:
            if mode == 'regular':
                want = [fit(X, Yu, c['fit'])]
            elif mode == 'combined':
                two = [fit(X, Yu, 'BFGS'), fit(X, Yu, 'Nelder-Mead')]
                vals = [nlml(c, X, Yu, h) for h in two]
                want = [two[int(np.argmin(vals))]]
                if abs(vals[0] - vals[1]) < 1e-6:
                    want = two
            elif frozen:
                want = [history[-1]]
            else:
                want = [fit(X, Yu, c['fit'])]
        except (np.linalg.LinAlgError, ValueError) as exc:
            if diverged(exc):
                return {'nontrivial': False, 'labels': ['fit diverged']}
            raise
        _, info = call(model.optimize, X, Y, num_samples=2, str_sampling_method='uniform',
                       str_mlm_method=mode, seed=s['seed'])
        h = info['hyps']
        ref.close(info['Y_normalized'], Yu, 1e-9 * (1 + np.abs(Yu)),
                  'step %d (%s): responses used for fitting', i, mode)
        if mode == 'converged' and frozen:
            ensure(np.allclose(vec(h, False), vec(want[0], False), rtol=1e-12, atol=0),
                   'step %d: hyperparameters had converged to %s, the step uses %s', i, want[0], h)
            labels.add('frozen')
        else:
            ensure(any(agree(c, X, Yu, h, w) for w in want),
                   'step %d (%s): hyperparameters %s, the schedule prescribes %s', i, mode, h,
                   want[0])
        K = ref.train_cov(c['cov'], X, h)
        ref.close(ref.out(info['cov_X_X'], K.shape, 'covariance'), K,
                  1e-9 * (1 + h['signal'] ** 2), 'step %d (%s): covariance', i, mode)
        ref.close(K @ ref.out(info['inv_cov_X_X'], K.shape, 'inverse'), np.eye(len(X)),
                  1e-7 + 1e3 * ref.EPS * ref.cond(K), 'step %d (%s): inverse', i, mode)
        if mode == 'converged' and not frozen and history:
            a, b = vec(h), vec(history[-1])
            ratio = np.linalg.norm(a - b) / np.linalg.norm(b)
            if abs(ratio - 0.05) < 5e-4:
                return {'labels': sorted(labels) + ['threshold']}
            frozen = bool(ratio < 0.05)
        history.append({k: np.copy(v) for k, v in h.items()})
        labels.add(mode)
    return {'labels': sorted(labels)}


@g.strat
def gen_conv(draw):
    d = g.size(draw, 4, 8, 24)
    ard = g.chance(draw, 70)
    hist = [g.hyps(draw, d, ard=ard) for _ in range(g.size(draw, 3, 12, low=0))]
    base = hist[-1] if hist else g.hyps(draw, d, ard=ard)
    style = g.pick(draw, 'near', 'near', 'other', 'first')
    if style == 'other':
        h = g.hyps(draw, d, ard=ard)
    else:
        if style == 'first' and hist:
            base = g.pick(draw, hist[0], hist[draw(st.integers(0, len(hist) - 1))])
        r = g.rnd(draw)
        v = np.concatenate([[base['noise'], base['signal']], np.ravel(base['lengthscales'])])
        u = r.randn(v.size) * (r.rand(v.size) < 0.6)
        u = u / max(np.linalg.norm(u), 1e-12)
        v = v + u * np.linalg.norm(v) * g.pick(draw, 0.0, 0.02, 0.045, 0.055, 0.1, 0.3)
        h = {'noise': float(v[0]), 'signal': float(v[1]),
             'lengthscales': v[2:].tolist() if ard else float(v[2])}
    return {'hist': hist, 'h': h, 'fix': g.chance(draw, 50), 'cov': g.pick(draw, *g.COV_BASE),
            'ratio': g.pick(draw, 0.05, None, 0.2, 0.01)}


@PROP.sub(gen_conv, 6000, 80000, lambda c: len(c['hist']) > 0, 'a non-empty history')
def convergence_test(c):
    from bayeso.utils import utils_bo
    hist = [g.np_hyps(h) for h in c['hist']]
    h = g.np_hyps(c['h'])
    kw = {} if c['ratio'] is None else {'ratio_threshold': c['ratio']}
    got = call(utils_bo.check_hyps_convergence, hist, h, c['cov'], c['fix'], **kw)
    ensure(isinstance(got, (bool, np.bool_)), 'expected a truth value, got %r', got)
    if not hist:
        ensure(not got, 'converged without a history')
        return {'labels': ['empty']}
    a, b = vec(h, c['fix']), vec(hist[-1], c['fix'])
    ratio = np.linalg.norm(a - b) / np.linalg.norm(b)
    limit = c['ratio'] or 0.05
    if abs(ratio - limit) < 1e-9:
        return {'nontrivial': False}
    ensure(bool(got) == (ratio < limit), 'relative change %.4f with threshold %g: %s', ratio, limit,
           got)
    return {'labels': ['converged' if got else 'not converged']}
