"""C14: one proposal step of GP- and TP-based optimisation."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure
from vp.props import c12
from vp.props.c11 import GP_OPT
from vp.props.c13 import in_box

PROP = Prop('C14', 'GP and TP proposals lie in the box and optimise the stated acquisition', [
    'Acquisition values are compared with an independent posterior; the allowance is calibrated '
    'per case from the disagreement of two reference solvers.',
    'Unbounded fits on raw responses, or with the leave-one-out criterion, can diverge to a '
    'numerically singular covariance, which the library reports by an exception; such cases are '
    'counted as trivial.',
    'CMA-ES is not run on boxes with a zero-width dimension (rejected by the cma package).',
])
SAMPLING = ['sobol', 'uniform', 'gaussian', 'halton', 'grid']


def gen_case(draw, kinds=('gp', 'gp', 'tp'), cma=True, max_n=10, max_num=12):
    kind = g.pick(draw, *kinds)
    d = g.size(draw, 3, 6, 10)
    R = g.ranges(draw, d, degenerate=g.chance(draw, 10), wide=False)
    n = g.size(draw, max_n, 2 * max_n, 5 * max_n, p_mid=12, p_big=2)
    A = np.array(R)
    X = g.points(draw, n, d, lo=A[:, 0], hi=A[:, 1])
    r = g.rnd(draw)
    if g.chance(draw, 50):
        Z = (np.array(X) - A[:, 0]) / np.maximum(A[:, 1] - A[:, 0], 1e-9)
        Y = (np.sum((Z - 0.4) ** 2, axis=1, keepdims=True) * g.pick(draw, 1.0, 5.0, 100.0)
             + 0.02 * r.randn(n, 1)).round(5).tolist()
    else:
        Y = g.responses(draw, n, scale=False)
    degenerate = bool(np.any(A[:, 0] == A[:, 1]))
    opt = 'CMA-ES' if cma and not degenerate and g.chance(draw, 4) else \
        g.pick(draw, 'L-BFGS-B', 'L-BFGS-B', 'L-BFGS-B', 'DIRECT')
    sampling = g.pick(draw, *SAMPLING)
    num = g.size(draw, max_num, 4 * max_num, 12 * max_num, p_mid=5, p_big=3)
    if sampling == 'grid':
        num = g.size(draw, {1: 8, 2: 4, 3: 2}.get(d, 1))
    return {'kind': kind, 'range': R, 'X': X, 'Y': Y, 'cov': g.pick(draw, *g.COV_BASE),
            'acq': g.pick(draw, *c12.NAMES), 'norm': g.chance(draw, 60), 'ard': g.chance(draw, 65),
            'prior': g.prior(draw, p_none=65), 'opt': opt,
            'fit': g.pick(draw, 'SLSQP', 'L-BFGS-B') if kind == 'tp' else g.pick(draw, *GP_OPT),
            'crit': g.pick(draw, 'ml', 'ml', 'loocv'),
            'mlm': g.pick(draw, 'regular', 'regular', 'combined', 'converged'),
            'sampling': sampling, 'num': num, 'seed': draw(st.integers(0, 2**31 - 1)),
            'debug': g.chance(draw, 4),
            'warm': g.pick(draw, None, None, None, None, *WARM) if g.chance(draw, 60) else None,
            'exp': g.pick(draw, None, None, 'lab', 'run 2')}


WARM = ['same_Y', 'same_X', 'prefix', 'shift', 'permute', 'swap_last', 'fresh', 'other_options']


def warm_up(c, bo, X, Y):
    """An earlier step on the same object with data related to the judged step."""
    w = c.get('warm')
    if w is None or (c['kind'] == 'gp' and c['mlm'] == 'converged'):
        return
    r = np.random.RandomState(c['seed'] % 2**31)
    A = g.A(c['range'])
    F = A[:, 0] + r.rand(*X.shape) * (A[:, 1] - A[:, 0])
    kw = step_args(c)
    kw['num_samples'] = min(c['num'], 3)
    if w == 'same_Y':
        X = F
    elif w == 'same_X':
        Y = r.randn(*Y.shape)
    elif w == 'prefix':
        k = max(1, len(X) - 1)
        X, Y = X[:k], Y[:k]
    elif w == 'shift':
        Y = 2.0 * Y + 3.0
    elif w == 'permute':
        X = X[::-1].copy()
    elif w == 'swap_last':
        X = np.vstack([X[:-1], F[-1:]])
    elif w == 'fresh':
        X, Y = F, r.randn(*Y.shape)
    elif w == 'other_options':
        kw.update(seed=None, str_sampling_method='uniform')
    try:
        bo.optimize(X, Y, **kw)
    except (np.linalg.LinAlgError, ValueError):
        pass


def make(c, R=None):
    from bayeso.bo import bo_w_gp, bo_w_tp, bo_w_trees
    R = g.A(c['range']) if R is None else R
    kw = dict(str_acq=c['acq'], normalize_Y=c['norm'], debug=bool(c.get('debug')),
              str_exp=c.get('exp'))
    if c['kind'] == 'rf':
        return call(bo_w_trees.BOwTrees, R, **kw)
    kw.update(str_cov=c['cov'], use_ard=c['ard'], prior_mu=g.prior_fn(c['prior']),
              str_optimizer_method_bo=c['opt'])
    if c['kind'] == 'tp':
        return call(bo_w_tp.BOwTP, R, str_optimizer_method_tp=c['fit'], **kw)
    return call(bo_w_gp.BOwGP, R, str_optimizer_method_gp=c['fit'],
                str_modelselection_method=c['crit'], **kw)


def step_args(c):
    kw = dict(str_sampling_method=c['sampling'], num_samples=c['num'], seed=c['seed'])
    if c['kind'] == 'gp':
        kw['str_mlm_method'] = c['mlm']
    return kw


def scaled(Y, c):
    if not c['norm'] or (c['kind'] == 'gp' and c['mlm'] == 'converged'):
        return Y
    lo, hi = Y.min(), Y.max()
    return Y if lo == hi else (Y - lo) / (hi - lo) * 10.0


def acquisition(name, mean, std, Y, noise):
    imp, z = c12.parts(mean, std, Y, 1e-5)
    if name == 'pi':
        return c12.cdf(z)
    ei = imp * c12.cdf(z) + std * c12.pdf(z)
    if name == 'ei':
        return ei
    if name == 'aei':
        return ei * (1 - noise / np.sqrt(std ** 2 + noise ** 2))
    if name == 'ucb':
        return -mean + 2.0 * np.log(len(Y) + 1.0) * std
    return -mean if name == 'pure_exploit' else std


def posterior(c, X, Y, P, h, Ki=None):
    """Predictive mean and standard deviation at P, with round-off allowances."""
    m, ms = g.prior_vals(c['prior'], X), g.prior_vals(c['prior'], P)
    K = ref.train_cov(c['cov'], X, h)
    Ks = ref.kernel(c['cov'], X, P, h)
    y = Y - m
    sol = ref.solve(K, np.hstack([y, Ks]))
    vp = h['signal'] ** 2 + ref.JITTER_COV
    if c['cov'].startswith('set_'):
        vp = np.array([ref.kernel(c['cov'], P[[i]], P[[i]], h)[0, 0] for i in range(len(P))]) \
            + ref.JITTER_COV

    def finish(a, B):
        mu = (Ks.T @ a + ms)[:, 0]
        v = vp - np.sum(Ks * B, axis=0)
        beta = float((y.T @ a)[0, 0])
        if c['kind'] == 'tp':
            v = v * (h['dof'] + beta - 2.0) / (h['dof'] + len(X) - 2.0)
        return mu, v
    mu, v = finish(sol[:, :1], sol[:, 1:])
    alts = [np.linalg.inv(K), np.linalg.pinv(K, hermitian=True)]
    if Ki is not None:
        alts.append(Ki)
    dm, dv = np.zeros_like(mu), np.zeros_like(v)
    for I in alts:
        mu2, v2 = finish(I @ y, I @ Ks)
        dm = np.maximum(dm, np.abs(mu - mu2))
        dv = np.maximum(dv, np.abs(v - v2))
    kappa = ref.cond(K)
    tm = 1e-8 * (1 + np.abs(mu)) + 50 * np.max(dm) + 20 * ref.EPS * kappa * (1 + np.abs(y).max())
    tv = 1e-9 * (1 + vp) + 50 * np.max(dv) + 20 * ref.EPS * kappa * vp
    return mu, np.maximum(v, 0.0), tm, tv, kappa


def acq_interval(c, mu, v, tm, tv, Y, noise):
    """Value and range of the acquisition over the round-off box."""
    vals = []
    for a in (-1.0, 0.0, 1.0):
        for b in (-1.0, 0.0, 1.0):
            s = np.sqrt(np.maximum(v + b * tv, 0.0))
            vals.append(acquisition(c['acq'], mu + a * tm, s, Y, noise))
    vals = np.array(vals)
    mid = vals[4]
    pad = 0.5 * (vals.max(0) - vals.min(0)) + 1e-7 * (1e-3 + np.abs(mid))
    return mid, vals.min(0) - pad, vals.max(0) + pad


def may_diverge(c):
    """Configurations whose unbounded fit can leave the numerically positive-definite range."""
    return c['kind'] == 'gp' and (c['fit'] in ('BFGS', 'SLSQP', 'Nelder-Mead')
                                  or c['mlm'] == 'combined')


def run_step(c, bo, X, Y):
    """Run one step; None when an unbounded fit diverged to a singular covariance."""
    try:
        return bo.optimize(X, Y, **step_args(c))
    except (np.linalg.LinAlgError, ValueError) as exc:
        if may_diverge(c) and ('ingular' in str(exc) or 'jitter_cov' in str(exc)):
            return None
        return call(bo.optimize, X, Y, **step_args(c))
    except Exception:
        return call(bo.optimize, X, Y, **step_args(c))


def check_step(c, res, X, Y, R, bo):
    d = len(R)
    ensure(isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], dict),
           'expected (next point, information)')
    x = ref.out(res[0], (d,), 'next point')
    info = res[1]
    for k in ('next_points', 'acquisitions', 'Y_original', 'Y_normalized', 'cov_X_X',
              'inv_cov_X_X', 'hyps', 'time_surrogate', 'time_acq', 'time_overall'):
        ensure(k in info, 'information has no %s', k)
    cma = c['opt'] == 'CMA-ES' and d > 1
    m = 1 if cma else (c['num'] ** d if c['sampling'] == 'grid' else c['num'])
    P = ref.out(info['next_points'], (m, d), 'candidates')
    acq = ref.out(info['acquisitions'], (m,), 'acquisitions of the candidates')
    ensure(np.all(x >= R[:, 0]) and np.all(x <= R[:, 1]), 'next point %s outside the box', x)
    in_box(P, R, 'candidates')
    ensure(bool(np.any(np.all(P == x, axis=1))), 'the next point is not one of the candidates')
    n = len(X)
    Yn = ref.out(info['Y_normalized'], (n, 1), 'normalised responses')
    ensure(np.array_equal(ref.out(info['Y_original'], (n, 1), 'original responses'), Y),
           'original responses are not reported unchanged')
    want = scaled(Y, c)
    ref.close(Yn, want, 1e-10 * (1 + np.abs(want)), 'responses used for fitting')
    h = info['hyps']
    for k, v in h.items():
        ref.out(v, (d,) if k == 'lengthscales' and c['ard'] else (), k)
    K = ref.train_cov(c['cov'], X, h)
    s2 = h['signal'] ** 2
    big = np.max(np.abs(X / h['lengthscales'])) + 1
    tol = 1e-10 * s2 + 100 * ref.EPS * s2 * big + 1e-12
    ref.close(ref.out(info['cov_X_X'], (n, n), 'covariance'), K, tol, 'reported covariance')
    Ki = ref.out(info['inv_cov_X_X'], (n, n), 'inverse')
    kappa = ref.cond(K)
    ref.close(K @ Ki, np.eye(n), 1e-9 + 100 * n * ref.EPS * kappa + np.abs(Ki).sum(axis=0) * tol,
              'reported covariance times reported inverse')
    times = [float(ref.out(info[k], (), k)) for k in ('time_surrogate', 'time_acq', 'time_overall')]
    ensure(min(times) >= 0, 'negative time')
    ensure(times[0] + times[1] <= times[2] + 1e-3,
           'surrogate (%g s) and acquisition (%g s) exceed the overall time (%g s)', *times)
    if kappa > 1e12:
        return False
    noise = float(h['noise'])
    mid, lo, hi = acq_interval(c, *posterior(c, X, Yn, P, h, Ki)[:4], Yn, noise)
    got = -acq / 10.0
    bad = (got < lo) | (got > hi)
    if bad.any():
        i = int(np.argmax(bad))
        ensure(False, 'acquisition %s at candidate %s is %r, the posterior gives %r in [%r, %r]',
               c['acq'], P[i].tolist(), float(got[i]), float(mid[i]), float(lo[i]), float(hi[i]))
    # the next point attains the best acquisition among the candidates
    best = np.min(acq)
    at = acq[np.all(P == x, axis=1)].min()
    raw = np.maximum((hi - lo) - 2e-7 * (1e-3 + np.abs(mid)), 0.0)
    spread = max(raw[np.all(P == x, axis=1)].max(), raw[np.argmin(acq)]) * 10.0
    ensure(at <= best + spread + 1e-7 * abs(best) + 1e-14,
           'the next point has acquisition %r, another candidate has %r', -at / 10, -best / 10)
    # the candidates improve on the starting points of the search
    if not cma:
        S = call(bo.get_samples, c['sampling'], num_samples=c['num'], seed=c['seed'])
        mid_s, lo_s, hi_s = acq_interval(c, *posterior(c, X, Yn, S, h, Ki)[:4], Yn, noise)
        ensure(-best / 10 >= np.max(lo_s) - 1e-6 * (1 + abs(best)),
               'the best candidate (%r) is worse than a starting point (%r)', -best / 10,
               float(np.max(mid_s)))
    # public evaluation agrees with the information returned
    a2 = ref.out(call(bo.compute_acquisitions, P, X, Yn, info['cov_X_X'], info['inv_cov_X_X'], h),
                 (m,), 'recomputed acquisitions')
    ref.close(a2, -acq, np.maximum(1e-7 * (np.abs(acq) + 1e-3), 10 * (hi - lo)),
              'recomputed acquisitions')
    return True


@g.strat
def gen(draw):
    return gen_case(draw)


@PROP.sub(gen, 1000, 16000, lambda c: len(c['X']) > 1 and c['num'] > 1,
          'several observations and several starting points')
def step(c):
    X, Y, R = g.A(c['X']), g.A(c['Y']), g.A(c['range'])
    bo = make(c)
    warm_up(c, bo, X, Y)
    res = run_step(c, bo, X, Y)
    if res is None:
        return {'nontrivial': False, 'labels': ['fit diverged']}
    full = check_step(c, res, X, Y, R, bo)
    return {'labels': [c['kind'], c['acq'], c['opt'], c['sampling'], c['mlm'],
                       'well conditioned' if full else 'ill conditioned',
                       'first step' if c['warm'] is None else 'after ' + c['warm']]}


@g.strat
def gen_acq(draw):
    c = gen_case(draw, cma=False, max_n=12)
    d = len(c['range'])
    tp = c['kind'] == 'tp'
    c['h'] = g.hyps(draw, d, ard=c['ard'], tp=tp, noise=(0.02, 0.5), signal=(0.3, 5.0),
                    ls=(0.2, 10.0))
    A = np.array(c['range'])
    k = g.size(draw, 6, 40, 250, p_big=3)
    if g.chance(draw, 20):
        # collections of sets: (number, set size, dimension)
        c['cov'] = 'set_' + c['cov']
        n, a, b = len(c['Y']), draw(st.integers(1, 3)), draw(st.integers(1, 3))
        k = min(k, 12)
        c['X'] = np.reshape(g.points(draw, n * a, d, lo=A[:, 0], hi=A[:, 1]), (n, a, d)).tolist()
        c['P'] = np.reshape(g.points(draw, k * b, d, lo=A[:, 0], hi=A[:, 1]), (k, b, d)).tolist()
    else:
        c['P'] = g.points(draw, k, d, lo=A[:, 0], hi=A[:, 1])
    return c


@PROP.sub(gen_acq, 5000, 60000, lambda c: len(c['X']) > 1 and len(c['P']) > 1,
          'several observations and several evaluation points')
def evaluation(c):
    """Posterior and acquisition evaluation for given hyperparameters."""
    X, Y, P, h = g.A(c['X']), g.A(c['Y']), g.A(c['P']), g.np_hyps(c['h'])
    bo = make(c)
    K = ref.train_cov(c['cov'], X, h)
    Ki = ref.solve(K, np.eye(len(X)))
    Ki = (Ki + Ki.T) / 2
    mu, v, tm, tv, kappa = posterior(c, X, Y, P, h, Ki)
    res = call(bo.compute_posteriors, X, Y, P, K, Ki, h)
    ensure(isinstance(res, tuple) and len(res) == 2, 'expected mean and standard deviation')
    ref.close(ref.out(res[0], (len(P),), 'mean'), mu, tm, 'predicted mean')
    ref.close(ref.out(res[1], (len(P),), 'std') ** 2, v, tv, 'predicted variance')
    got = ref.out(call(bo.compute_acquisitions, P, X, Y, K, Ki, h), (len(P),), 'acquisition') / 10
    mid, lo, hi = acq_interval(c, mu, v, tm, tv, Y, h['noise'])
    bad = (got < lo) | (got > hi)
    if bad.any():
        i = int(np.argmax(bad))
        ensure(False, 'acquisition %s is %r, the posterior gives %r', c['acq'], float(got[i]),
               float(mid[i]))
    if P.ndim == 3:
        return {'labels': [c['kind'], c['acq'], 'sets']}
    one = ref.out(call(bo.compute_acquisitions, P[0], X, Y, K, Ki, h), (1,), 'acquisition') / 10
    ensure(lo[0] <= one[0] <= hi[0], 'acquisition of a single point is %r, expected %r',
           float(one[0]), float(mid[0]))
    return {'labels': [c['kind'], c['acq']]}


N_BATTERY = {'L-BFGS-B': 6, 'CMA-ES': 3}
ALLOWED_SHORT = {'L-BFGS-B': 3, 'CMA-ES': 2}


@g.strat
def gen_battery(draw):
    kind = g.pick(draw, 'gp', 'tp')
    d = g.size(draw, 3)
    return {'kind': kind, 'd': d, 'cov': g.pick(draw, *g.COV_BASE),
            'acq': g.pick(draw, *c12.NAMES), 'norm': g.chance(draw, 60), 'ard': g.chance(draw, 65),
            'prior': g.prior(draw, p_none=65),
            'opt': 'CMA-ES' if d > 1 and g.chance(draw, 8) else 'L-BFGS-B',
            'fit': 'SLSQP' if kind == 'tp' else 'L-BFGS-B', 'crit': 'ml', 'mlm': 'regular',
            'sampling': g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton'),
            'num': draw(st.integers(2, 5)), 'seed': draw(st.integers(0, 2**31 - 1))}


def problem(c, r):
    """A well-posed problem: box, a few observations of a smooth function, seed."""
    d = c['d']
    lo = r.randint(-3, 4, size=d).astype(float)
    R = np.stack([lo, lo + r.randint(1, 5, size=d)], axis=1)
    n = r.randint(5, 10)
    X = R[:, 0] + r.rand(n, d) * (R[:, 1] - R[:, 0])
    Z = (X - R[:, 0]) / (R[:, 1] - R[:, 0])
    Y = 3 * np.sum((Z - r.rand(d)) ** 2, axis=1, keepdims=True) + 0.5 * np.sin(7 * Z[:, :1])
    return dict(c, seed=int(r.randint(2**31 - 1))), R, X, Y


def independent(c, R, X, Yn, h):
    """The acquisition function of a model, written independently of the library."""
    n = len(X)
    K = ref.train_cov(c['cov'], X, h)
    Ki = np.linalg.pinv(K, hermitian=True)
    y = Yn - g.prior_vals(c['prior'], X)
    beta = float((y.T @ Ki @ y)[0, 0])
    scale = (h['dof'] + beta - 2.0) / (h['dof'] + n - 2.0) if c['kind'] == 'tp' else 1.0

    def value(p):
        p = np.clip(np.atleast_2d(p), R[:, 0], R[:, 1])
        Ks = ref.kernel(c['cov'], X, p, h)
        mu = (Ks.T @ Ki @ y + g.prior_vals(c['prior'], p))[:, 0]
        v = (h['signal'] ** 2 + ref.JITTER_COV - np.sum(Ks * (Ki @ Ks), axis=0)) * scale
        return acquisition(c['acq'], mu, np.sqrt(np.maximum(v, 0.0)), Yn, float(h['noise']))

    return value


@PROP.sub(gen_battery, 48, 1600, None,
          'every case is a battery of several proposal steps sharing one configuration')
def attained(c):
    """On most well-posed problems the proposal reaches the acquisition value that the same
    search reaches on an independently written acquisition."""
    from scipy.optimize import minimize
    r = np.random.RandomState(c['seed'] % (2**32))
    short, report = 0, []
    for _ in range(N_BATTERY[c['opt']]):
        cc, R, X, Y = problem(c, r)
        bo = make(cc, R)
        x, info = call(bo.optimize, X, Y, **step_args(cc))
        value = independent(cc, R, X, scaled(Y, cc), info['hyps'])
        num = 6 if c['opt'] == 'CMA-ES' else c['num']
        S = call(bo.get_samples, c['sampling'], num_samples=num, seed=cc['seed'])
        ends = [minimize(lambda p: -10.0 * value(p)[0], x0=s, bounds=R.tolist(),
                         method='L-BFGS-B').x for s in S]
        best, begin = float(np.max(value(np.array(ends)))), float(np.max(value(S)))
        best = max(best, begin)
        got = float(value(x)[0])
        bad = not got >= best - 1e-3 * (1e-3 + abs(best)) - 0.05 * (best - begin)
        short += bad
        if bad:
            report.append((got, best, begin))
    ensure(short <= ALLOWED_SHORT[c['opt']],
           '%d of %d proposals stop short of the acquisition the same search reaches (reached, '
           'attainable, start): %s', short, N_BATTERY[c['opt']], report)
    return {'labels': [c['opt'], c['kind'], c['acq'], f'short:{short}'], 'worse': short}


N_SINGLE, ALLOWED_SINGLE = 24, 7


@g.strat
def gen_single(draw):
    kind = g.pick(draw, 'gp', 'tp')
    return {'kind': kind, 'd': draw(st.integers(1, 4)), 'cov': g.pick(draw, *g.COV_BASE),
            'acq': g.pick(draw, 'pi', 'ei', 'aei', 'pure_exploit'),
            'norm': g.chance(draw, 80), 'ard': g.chance(draw, 65), 'prior': None,
            'opt': 'L-BFGS-B', 'fit': 'SLSQP' if kind == 'tp' else 'L-BFGS-B', 'crit': 'ml',
            'mlm': 'regular', 'sampling': g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton'),
            'num': 1, 'seed': draw(st.integers(0, 2**31 - 1))}


@PROP.sub(gen_single, 24, 600, None,
          'every case is a battery of two dozen single-start searches sharing one configuration')
def single_start(c):
    """From one starting point, the search climbs as far as the same search does on an
    independently written acquisition."""
    from scipy.optimize import minimize
    r = np.random.RandomState(c['seed'] % (2**32))
    report = []
    for _ in range(N_SINGLE):
        cc, R, X, Y = problem(c, r)
        bo = make(cc, R)
        x, info = call(bo.optimize, X, Y, **step_args(cc))
        value = independent(cc, R, X, scaled(Y, cc), info['hyps'])
        s = call(bo.get_samples, c['sampling'], num_samples=1, seed=cc['seed'])[0]
        end = minimize(lambda p: -10.0 * value(p)[0], x0=s, bounds=R.tolist(),
                       method='L-BFGS-B').x
        best, begin, got = (float(value(p)[0]) for p in (end, s, x))
        if best - got > 2e-3 * (best - begin) + 1e-5 * (1e-2 + abs(best)):
            report.append((got, best, begin))
    ensure(len(report) <= ALLOWED_SINGLE,
           '%d of %d searches from one starting point stop short of what the same search '
           'reaches (reached, attainable, start): %s', len(report), N_SINGLE, report)
    return {'labels': [c['kind'], c['acq'], f'short:{len(report)}'], 'worse': len(report)}


@g.strat
def gen_cma(draw):
    kind = g.pick(draw, 'gp', 'tp')
    return {'kind': kind, 'd': g.pick(draw, 2, 2, 3), 'cov': g.pick(draw, *g.COV_BASE),
            'acq': g.pick(draw, 'pure_exploit', 'pure_explore', 'ucb', 'ei'),
            'norm': g.chance(draw, 60), 'ard': g.chance(draw, 65),
            'prior': g.prior(draw, p_none=65), 'opt': 'CMA-ES',
            'fit': 'SLSQP' if kind == 'tp' else 'L-BFGS-B', 'crit': 'ml', 'mlm': 'regular',
            'sampling': g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton'),
            'num': draw(st.integers(2, 5)), 'seed': draw(st.integers(0, 2**31 - 1))}


@PROP.sub(gen_cma, 24, 400, None,
          'every case is a battery of several proposal steps sharing one configuration')
def attained_cma(c):
    """CMA-ES converges: on most problems a descent from the proposal hardly improves it."""
    from scipy.optimize import minimize
    r = np.random.RandomState(c['seed'] % (2**32))
    short, report = 0, []
    for _ in range(6):
        cc, R, X, Y = problem(c, r)
        bo = make(cc, R)
        x, info = call(bo.optimize, X, Y, **step_args(cc))
        value = independent(cc, R, X, scaled(Y, cc), info['hyps'])
        got = float(value(x)[0])
        end = minimize(lambda p: -10.0 * value(p)[0], x0=x, bounds=R.tolist(),
                       method='L-BFGS-B').x
        best = float(value(end)[0])
        field = value(R[:, 0] + r.rand(300, c['d']) * (R[:, 1] - R[:, 0]))
        gain = (best - got) / (1e-9 + max(best, field.max()) - np.median(field))
        bad = not gain <= 0.002
        short += bad
        if bad:
            report.append((got, best, round(gain, 4)))
    most = 2 if c['acq'].startswith('pure') else 3
    ensure(short <= most, '%d of 6 CMA-ES proposals stop short of the nearest maximum (reached, '
           'attainable, relative gain): %s', short, report)
    return {'labels': [c['kind'], c['acq'], f'short:{short}'], 'worse': short}

PROP.sub(g.related(gen_acq), 500, 6000, None, 'the second call differs from the first',
         name='evaluation_again')(g.each(evaluation))
