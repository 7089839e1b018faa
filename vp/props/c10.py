"""C10: conversions between hyperparameter dictionaries, vectors and ranges are lossless."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, Violation, call, ensure

PROP = Prop('C10', 'Hyperparameter conversions are lossless and validated', [])

RANGE = {'noise': (1e-3, 1e1), 'dof': (2.00001, 200.0), 'signal': (1e-2, 1e3),
         'ls': (1e-2, 1e3)}


@g.strat
def gen(draw):
    d = g.size(draw, 6, 30, 150)
    tp = g.chance(draw, 50)
    ard = g.chance(draw, 60)
    h = g.hyps(draw, d, ard=ard, tp=tp, noise=(1e-3, 1e3), signal=(1e-3, 1e4), ls=(1e-3, 1e4),
               signed=True)
    return {'cov': g.pick(draw, *(g.COV_BASE + g.COV_SET)), 'd': d, 'tp': tp, 'ard': ard, 'h': h,
            'fix_noise': g.chance(draw, 50), 'noise': g.positive(draw, 1e-4, 10.0),
            'give_noise': g.chance(draw, 50)}


def same(a, b, name):
    ensure(set(a) == set(b), '%s: keys %s, expected %s', name, sorted(a), sorted(b))
    for k in b:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        ensure(x.shape == y.shape, '%s: %s has shape %s, expected %s', name, k, x.shape, y.shape)
        ensure(np.array_equal(x, y), '%s: %s is %s, expected %s', name, k, x, y)


@PROP.sub(gen, 12000, 150000, lambda c: c['d'] > 1, 'more than one dimension')
def round_trip(c):
    from bayeso.utils import utils_covariance as uc
    cov, d, tp, ard, fix = c['cov'], c['d'], c['tp'], c['ard'], c['fix_noise']
    h = g.np_hyps(c['h'])
    before = copy.deepcopy(h)
    vec = call(uc.convert_hyps, cov, h, use_gp=not tp, fix_noise=fix)
    want = ([] if fix else [h['noise']]) + ([h['dof']] if tp else []) + [h['signal']] \
        + list(np.atleast_1d(h['lengthscales']))
    v = ref.out(vec, (len(want),), 'hyperparameter vector')
    ensure(np.array_equal(v, want), 'hyperparameter vector %s, expected %s', v, want)
    same(h, before, 'dictionary after conversion')
    kw = {'noise': c['noise']} if c['give_noise'] else {}
    back = call(uc.restore_hyps, cov, vec, use_gp=not tp, use_ard=ard, fix_noise=fix, **kw)
    exp = dict(before)
    if fix:
        exp['noise'] = c['noise'] if c['give_noise'] else 1e-2
    same(back, exp, 'restored dictionary')
    ensure(np.array_equal(np.asarray(vec), want), 'vector changed by restoring')
    again = call(uc.convert_hyps, cov, {k: (float(x) if np.ndim(x) == 0 else x)
                                        for k, x in back.items()}, use_gp=not tp, fix_noise=fix)
    ensure(np.array_equal(again, want), 'second conversion gives %s, expected %s', again, want)
    # restored lengthscales are a copy, not a window on the vector
    if ard:
        vec2 = np.array(vec)
        b2 = call(uc.restore_hyps, cov, vec2, use_gp=not tp, use_ard=True, fix_noise=fix, **kw)
        vec2[:] = -1.0
        same(b2, exp, 'restored dictionary after the vector was reused')
    return {'labels': ['tp' if tp else 'gp', 'ard' if ard else 'shared', 'fix' if fix else 'free']}


@PROP.sub(gen, 6000, 60000, lambda c: c['d'] > 1, 'more than one dimension')
def defaults_and_ranges(c):
    """Defaults are inside the ranges; ranges line up with the vector, call after call."""
    from bayeso.utils import utils_covariance as uc
    cov, d, tp, ard, fix = c['cov'], c['d'], c['tp'], c['ard'], c['fix_noise']
    h = call(uc.get_hyps, cov, d, use_gp=not tp, use_ard=ard)
    exp = {'noise': 1e-2, 'signal': 1.0, 'lengthscales': np.ones(d) if ard else 1.0}
    if tp:
        exp['dof'] = 5.0
    same(h, exp, 'default hyperparameters')
    vec = ref.out(call(uc.convert_hyps, cov, h, use_gp=not tp, fix_noise=fix),
                  ((not fix) + tp + 1 + (d if ard else 1),), 'default vector')
    want = ([] if fix else [RANGE['noise']]) + ([RANGE['dof']] if tp else []) \
        + [RANGE['signal']] + [RANGE['ls']] * (d if ard else 1)
    for rep in range(3):
        rg = call(uc.get_range_hyps, cov, d, use_gp=not tp, use_ard=ard, fix_noise=fix)
        ensure(isinstance(rg, list) and len(rg) == len(vec),
               'call %d: %s ranges for %d hyperparameters', rep,
               len(rg) if isinstance(rg, list) else type(rg), len(vec))
        r = ref.out(np.array(rg, float), (len(vec), 2), 'ranges')
        ensure(np.array_equal(r, np.array(want)), 'ranges %s, expected %s', r.tolist(), want)
        ensure(np.all((r[:, 0] <= vec) & (vec <= r[:, 1])), 'a default lies outside its range')
    # the two objects handed out are independent
    if ard:
        h['lengthscales'][:] = 9.0
        same(call(uc.get_hyps, cov, d, use_gp=not tp, use_ard=ard), exp, 'second default')


@g.strat
def gen_val(draw):
    d = g.size(draw, 5, 12)
    tp = g.chance(draw, 50)
    h = g.hyps(draw, d, tp=tp, noise=(1e-3, 1e3), signal=(1e-3, 1e4), ls=(1e-3, 1e4), signed=True)
    if tp:
        h['dof'] = g.pick(draw, 5.0, 2.0, 1.0, 0.0, -3.0, 2.00001, 2.5, 200.0, 1e6)
    bad = g.pick(draw, 'ok', 'ok', 'miss_noise', 'miss_signal', 'miss_ls', 'miss_dof', 'str_noise',
                 'str_signal', 'str_ls', 'len_ls', 'int_dof', 'int_signal', 'list_ls', 'none_noise')
    return {'cov': g.pick(draw, *(g.COV_BASE + g.COV_SET)), 'd': d, 'tp': tp, 'h': h, 'bad': bad,
            'k': draw(st.integers(1, 3))}


@PROP.sub(gen_val, 8000, 80000, lambda c: c['bad'] != 'ok' or c['tp'],
          'an invalid dictionary, or one with degrees of freedom')
def validation(c):
    """A complete, well-typed dictionary is accepted unchanged (except too few degrees of
    freedom); a missing, mistyped or wrongly sized entry is rejected with ValueError."""
    from bayeso.utils import utils_covariance as uc
    h, d, tp, bad = g.np_hyps(c['h']), c['d'], c['tp'], c['bad']
    exp = copy.deepcopy(h)
    reject = bad != 'ok'
    if bad == 'miss_noise':
        del h['noise']
    elif bad == 'miss_signal':
        del h['signal']
    elif bad == 'miss_ls':
        del h['lengthscales']
    elif bad == 'miss_dof':
        if not tp:
            return {'nontrivial': False}
        del h['dof']
    elif bad == 'str_noise':
        h['noise'] = 'abc'
    elif bad == 'none_noise':
        h['noise'] = None
    elif bad == 'str_signal':
        h['signal'] = 'abc'
    elif bad == 'str_ls':
        h['lengthscales'] = 'abc'
    elif bad == 'list_ls':
        h['lengthscales'] = [1.0] * d
    elif bad == 'len_ls':
        n = d + c['k'] if c['k'] != 3 or d == 1 else d - 1
        h['lengthscales'] = np.ones(n)
    elif bad == 'int_dof':
        if not tp:
            return {'nontrivial': False}
        h['dof'] = 4
    elif bad == 'int_signal':
        h['signal'] = 1
    if reject:
        try:
            uc.validate_hyps_dict(h, c['cov'], d, use_gp=not tp)
        except ValueError:
            return {'labels': [bad]}
        except Exception as exc:
            raise Violation(f'{bad}: rejected with {type(exc).__name__} instead of ValueError')
        raise Violation(f'invalid hyperparameters accepted ({bad})')
    res = call(uc.validate_hyps_dict, h, c['cov'], d, use_gp=not tp)
    ensure(isinstance(res, dict), 'validation returned %s', type(res).__name__)
    if tp and exp['dof'] <= 2.0:
        exp['dof'] = 2.00001
    same(res, exp, 'validated dictionary')
    return {'labels': ['ok']}
