"""C12: acquisition functions equal their definitions for minimisation."""
import math

import numpy as np
import scipy.integrate as si
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C12', 'Acquisition values equal their definitions for minimisation', [
    'The library adds a jitter (default 1e-5) to the standard deviation inside the standardised '
    'improvement; the definitions used here contain the same jitter.',
])
NAMES = ['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore']


@g.strat
def gen(draw):
    q = g.size(draw, 6, 50, 300, p_big=2)
    n = g.size(draw, 6, 60, 300, p_big=2, low=1)
    r = g.rnd(draw)
    mean = np.array(g.responses(draw, q))[:, 0]
    std = g.pick(draw, 'mixed', 'tiny', 'unit', 'zero', 'huge')
    s = {'mixed': 10.0 ** r.uniform(-6, 3, size=q), 'tiny': 10.0 ** r.uniform(-9, -3, size=q),
         'unit': r.rand(q) + 0.1, 'zero': np.zeros(q), 'huge': 10.0 ** r.uniform(1, 5, size=q)}[std]
    if std == 'mixed' and g.chance(draw, 30):
        s[r.randint(q)] = 0.0
    Y = np.array(g.responses(draw, n))
    if g.chance(draw, 40):
        # predictions around the incumbent
        mean = np.min(Y) + s * r.randn(q)
    return {'mean': mean.tolist(), 'std': s.tolist(), 'Y': Y.tolist(),
            'jitter': g.pick(draw, None, None, 0.0, 1e-3, 1e-8, 0.5),
            'noise': g.pick(draw, 1e-2, 0.1, 1.0, 1e-4, 10.0),
            'kappa': g.pick(draw, None, 2.0, 0.5, 0.0, 10.0), 'inc': g.pick(draw, None, True, False),
            'no_y': g.chance(draw, 20), 'seed': draw(st.integers(0, 10**6))}


def cdf(z):
    return np.array([0.5 * math.erfc(-v / math.sqrt(2.0)) for v in z])


def pdf(z):
    return np.array([math.exp(-0.5 * min(v * v, 1e4)) / math.sqrt(2 * math.pi) for v in z])


def parts(mean, std, Y, jitter):
    best = min(v for row in Y.tolist() for v in row)
    imp = best - mean
    den = std + jitter
    z = np.where(den > 0, imp / np.where(den > 0, den, 1.0),
                 np.where(imp > 0, np.inf, np.where(imp < 0, -np.inf, np.nan)))
    return imp, z


@PROP.sub(gen, 10000, 150000, lambda c: len(c['mean']) > 1 and any(s > 0 for s in c['std']),
          'several points, not all with zero standard deviation')
def definitions(c):
    from bayeso import acquisition as acq
    from bayeso.utils import utils_bo
    mean, std, Y = g.A(c['mean']), g.A(c['std']), g.A(c['Y'])
    q = len(mean)
    j = 1e-5 if c['jitter'] is None else c['jitter']
    kw = {} if c['jitter'] is None else {'jitter': c['jitter']}
    if j == 0.0:
        std = np.maximum(std, 1e-12)
    imp, z = parts(mean, std, Y, j)
    P, D = cdf(z), pdf(z)
    rel = 1e-9
    mag = np.abs(imp) * P + std * D
    # error of z from rounding improvement and scale
    zerr = 8 * ref.EPS * (np.abs(z) + (np.abs(mean) + np.abs(imp)) / (std + j))
    perr = rel * P + zerr * D + 1e-300
    eerr = rel * mag + np.abs(imp) * perr + 8 * ref.EPS * np.abs(mean) * (P + D) \
        + std * D * (zerr * (np.abs(z) + 1)) + 1e-300
    got = ref.out(call(acq.pi, mean, std, Y, **kw), (q,), 'probability of improvement')
    ref.close(got, P, perr, 'probability of improvement')
    ensure(np.all((got >= 0) & (got <= 1)), 'probability of improvement outside [0, 1]')
    ei = ref.out(call(acq.ei, mean, std, Y, **kw), (q,), 'expected improvement')
    want_ei = imp * P + std * D
    ref.close(ei, want_ei, eerr, 'expected improvement')
    aei = ref.out(call(acq.aei, mean, std, Y, c['noise'], **kw), (q,), 'augmented EI')
    fac = 1.0 - c['noise'] / np.sqrt(std ** 2 + c['noise'] ** 2)
    ref.close(aei, want_ei * fac, eerr * fac + 1e-12 * np.abs(want_ei) + 8 * ref.EPS * mag,
              'augmented expected improvement')
    kw = {}
    if c['kappa'] is not None:
        kw['kappa'] = c['kappa']
    if c['inc'] is not None:
        kw['increase_kappa'] = c['inc']
    kap = 2.0 if c['kappa'] is None else c['kappa']
    if c['no_y']:
        got = call(acq.ucb, mean, std, **kw)
    else:
        got = call(acq.ucb, mean, std, Y, **kw)
        if c['inc'] in (None, True):
            kap = kap * math.log(len(Y) + 1.0)
    ref.close(ref.out(got, (q,), 'confidence bound'), -mean + kap * std,
              rel * (np.abs(mean) + kap * std) + 1e-300, 'confidence bound')
    ensure(np.array_equal(ref.out(call(acq.pure_exploit, mean), (q,), 'pure exploitation'), -mean),
           'pure exploitation is not the negated mean')
    ensure(np.array_equal(ref.out(call(acq.pure_explore, std), (q,), 'pure exploration'), std),
           'pure exploration is not the standard deviation')
    # selection by name
    direct = {'pi': lambda: acq.pi(mean, std, Y), 'ei': lambda: acq.ei(mean, std, Y),
              'ucb': lambda: acq.ucb(mean, std, Y),
              'aei': lambda: acq.aei(mean, std, Y, c['noise']),
              'pure_exploit': lambda: acq.pure_exploit(mean),
              'pure_explore': lambda: acq.pure_explore(std)}
    for name in NAMES:
        f = call(utils_bo.choose_fun_acquisition, name, noise=c['noise'])
        got = ref.out(call(lambda: f(pred_mean=mean, pred_std=std, Y_train=Y)), (q,), name)
        ensure(np.array_equal(got, direct[name]()), 'acquisition selected by name %s differs', name)


@PROP.sub(gen, 6000, 80000, lambda c: len(c['mean']) > 1 and any(s > 0 for s in c['std']),
          'several points, not all with zero standard deviation')
def relations(c):
    """Element-wise, order-free in the data, shift- and scale-equivariant, monotone."""
    from bayeso import acquisition as acq
    mean, std, Y = g.A(c['mean']), g.A(c['std']), g.A(c['Y'])
    q, r = len(mean), np.random.RandomState(c['seed'])
    fns = {'pi': lambda m, s, y: acq.pi(m, s, y), 'ei': lambda m, s, y: acq.ei(m, s, y),
           'ucb': lambda m, s, y: acq.ucb(m, s, y),
           'aei': lambda m, s, y: acq.aei(m, s, y, c['noise'])}
    p, yp = r.permutation(q), r.permutation(len(Y))
    i = r.randint(q)
    for name, f in fns.items():
        base = ref.out(call(f, mean, std, Y), (q,), name)
        ref.close(call(f, mean[p], std[p], Y[yp]), base[p], 1e-12 * np.abs(base[p]),
                  name + ' after reordering')
        ref.close(call(f, mean[i:i + 1], std[i:i + 1], Y), base[i:i + 1],
                  1e-12 * np.abs(base[i:i + 1]), name + ' of a single point')
        better = mean - np.abs(r.randn(q)) * (std + 1e-3)
        ensure(np.all(call(f, better, std, Y) >= base - 1e-9 * (1 + np.abs(base))
                      - 2e-5 * (name != 'ucb')),
               '%s decreases when the predicted mean improves', name)
    # a worse, non-incumbent observation does not change the improvement-based values
    Y2 = np.vstack([Y, [[np.max(Y) + 1.0]]])
    for name in ('pi', 'ei', 'aei'):
        ensure(np.array_equal(fns[name](mean, std, Y2), fns[name](mean, std, Y)),
               '%s depends on a non-incumbent observation', name)
    # expected improvement is the integral of the improvement over the predictive distribution
    s = max(std[i], 1e-2)
    m = float(np.clip(mean[i], np.min(Y) - 6 * s, np.min(Y) + 6 * s))
    best = float(np.min(Y))
    val, err = si.quad(lambda t: max(best - (m + s * t), 0.0) * math.exp(-0.5 * t * t)
                       / math.sqrt(2 * math.pi), -12, (best - m) / s if (best - m) / s > -12 else -12)
    got = float(call(acq.ei, np.array([m]), np.array([s]), Y)[0])
    ref.close(got, val, 2e-3 * s + 1e-6 + err + 1e-9 * abs(best), 'expected improvement by integration')

PROP.sub(g.huge(gen, 10), 200, 3000, None, 'one size of the case is beyond its ordinary maximum',
         name='definitions_huge')(definitions)

PROP.sub(g.huge(gen, 10), 100, 2000, None, 'one size of the case is beyond its ordinary maximum',
         name='relations_huge')(relations)

PROP.sub(g.related(gen), 800, 9600, None, 'the second call differs from the first',
         name='definitions_again')(g.each(definitions))
