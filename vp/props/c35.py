"""C35: with normalised responses, the unit and the offset of the objective do not matter."""
import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Entropy, Prop, call, ensure
from vp.props import c14, c15, c31

PROP = Prop('C35', 'Normalised optimisation does not depend on the unit or offset of the objective', [
    'Responses are multiples of 2**-20, units are powers of two and offsets are whole numbers, so '
    'that the normalised responses agree to the last bit and equality is exact.',
    'The converged schedule, which does not normalise, is left out; so are data without any '
    'variation, which normalisation leaves as they are.',
])


def dyadic(v):
    return np.round(np.asarray(v, float) * 2.0 ** 20) / 2.0 ** 20


def keep_normalised(draw, c):
    c['norm'] = True
    if c['kind'] == 'gp':
        c['mlm'] = g.pick(draw, 'regular', 'regular', 'combined')
        c['crit'] = 'ml' if c['mlm'] == 'combined' or c['fit'] == 'BFGS' else c['crit']
    c['unit'] = g.pick(draw, *range(-12, 13))
    c['offset'] = g.pick(draw, 0, 0, draw(st.integers(-3, 3)), draw(st.integers(-1000, 1000)),
                         draw(st.integers(-2**20, 2**20)))
    c['e'] = draw(st.integers(0, 9999))
    c['debug'] = False


@g.strat
def gen_step(draw):
    c = c14.gen_case(draw, kinds=('gp', 'gp', 'tp', 'rf'), cma=False, max_num=4)
    if c['kind'] == 'rf':
        c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton', 'gaussian')
        c['num'] = g.size(draw, 12, 60)
    keep_normalised(draw, c)
    return c


def changed(c, Y):
    return (Y + c['offset']) * 2.0 ** c['unit']


def varies(c):
    return np.unique(dyadic(c['Y'])).size > 1 and (c['unit'] != 0 or c['offset'] != 0)


@PROP.sub(gen_step, 500, 9000, varies, 'varying responses and another unit or offset')
def proposals(c):
    X, Y = g.A(c['X']), dyadic(c['Y'])
    if np.unique(Y).size < 2:
        return {'nontrivial': False}
    R = g.A(c['range'])
    kw = dict(str_sampling_method=c['sampling'], num_samples=c['num'], seed=c['seed'])
    if c['kind'] == 'gp':
        kw['str_mlm_method'] = c['mlm']
    res = []
    for Z in (Y, changed(c, Y)):
        bo = c14.make(c, R.copy())
        with Entropy(c['e']):
            try:
                res.append(bo.optimize(X.copy(), Z.copy(), **kw))
            except (np.linalg.LinAlgError, ValueError) as exc:
                if c14.may_diverge(c) and ('ingular' in str(exc) or 'jitter_cov' in str(exc)):
                    res.append(None)
                    continue
                raise
    if None in res:
        ensure(res[0] is res[1], 'the fit fails in one unit and not in the other')
        return {'nontrivial': False, 'labels': ['fit diverged']}
    (x, a), (y, b) = res
    ensure(np.array_equal(x, y), 'in another unit the next point is %s instead of %s', y, x)
    for k in ('next_points', 'acquisitions'):
        ensure(np.array_equal(a[k], b[k], equal_nan=True), 'in another unit, %s differ', k)
    for k in sorted(set(a.get('hyps') or {})):
        ensure(np.array_equal(a['hyps'][k], b['hyps'][k]), 'in another unit, %s is %s instead of %s',
               k, b['hyps'][k], a['hyps'][k])
    if c['kind'] != 'rf':
        ensure(np.array_equal(a['Y_normalized'], b['Y_normalized']),
               'in another unit, the normalised responses differ')
    return {'labels': [c['kind'], c['acq']]}


@g.strat
def gen_loop(draw):
    c = draw(c15.gen())
    c['opt'] = 'DIRECT' if c['opt'] == 'DIRECT' else 'L-BFGS-B'
    c.update(rounds=1, sleep=False, ret='float', num_iter=g.size(draw, 4),
             fun=g.pick(draw, 'sphere', 'linear', 'halves', 'spike', 'steps'))
    keep_normalised(draw, c)
    return c


class InUnit(c15.Objective):
    """The objective, quantised so that unit and offset are exact."""

    def value(self, x):
        v = float(dyadic(super().value(x)))
        return (v + self.c['offset']) * 2.0 ** self.c['unit']


def differs(c):
    return c['num_iter'] > 1 and (c['unit'] != 0 or c['offset'] != 0)


@PROP.sub(gen_loop, 220, 4500, differs, 'several iterations and another unit or offset')
def loops(c):
    R = g.A(c['range'])
    X = g.A(c['X'])
    runs = []
    for unit, offset in ((0, 0), (c['unit'], c['offset'])):
        cc = dict(c, unit=unit, offset=offset)
        obj = InUnit(cc)
        with Entropy(c['e']):
            b, model = c15.build(cc, obj, R.copy())
            Y = np.array([[obj.value(x)] for x in X])
            runs.append(c15.run(cc, b, model, obj, X.copy(), Y))
    (X1, Y1), (X2, Y2) = runs[0][:2], runs[1][:2]
    for k in range(len(X), len(X1)):
        if np.unique(Y1[:k]).size < 2:
            # without variation the responses are used as they are
            return {'nontrivial': False, 'labels': ['no variation']}
    ensure(X1.shape == X2.shape, 'in another unit the run has another length')
    if not np.array_equal(X1, X2):
        ensure(False, 'in another unit the run first differs at evaluation %d: %s instead of %s',
               *c31._first(X2, X1))
    ref.close(Y2, changed(c, Y1), 0.0, 'responses of the run in another unit')
    return {'labels': [c['kind'], c['entry']]}

