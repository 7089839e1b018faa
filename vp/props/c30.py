"""C30: diagnostic output never changes a result."""
import numpy as np

from vp import gens as g
from vp.core import Entropy, Prop, Violation, call, ensure
from vp.props import c14, c22, c23, c24, c31

PROP = Prop('C30', 'Diagnostic output never changes a result', [
    'Wall-clock entries are left out of the comparison.',
    'CMA-ES seeds itself from the clock (behaviour of the cma package) and is not covered.',
])
OPS = ['inverse', 'cholesky', 'nlml', 'loo', 'tp_nlml', 'gp_hyps', 'tp_hyps', 'gp_cov', 'gp_fit',
       'tp_fit', 'gp_opt', 'step_gp', 'step_gp_conv', 'step_tp', 'step_rf', 'acquisitions',
       'posteriors', 'samples', 'loop', 'thompson']


@g.strat
def gen(draw):
    c = draw(c22.gen())
    c['ops'] = [g.pick(draw, *OPS) for _ in range(3)]
    return c


@PROP.sub(gen, 900, 20000, lambda c: len(c['X']) > 2, 'at least three observations')
def routines(c):
    """Every routine with a debug flag, quiet and verbose, on the same random state."""
    quiet, loud = c22.World(c), c22.World(c, debug=True)
    for op in c['ops']:
        outs = []
        for W in (quiet, loud):
            with Entropy(c['e']):
                outs.append(c22.no_times(W.run(op)))
                outs.append(np.random.get_state()[1].copy())
        ensure(c22.same(_plain(op, outs[0]), _plain(op, outs[2])),
               'debug=True changes the result of %s', op)
        ensure(np.array_equal(outs[1], outs[3]),
               'debug=True changes the random numbers used by %s', op)
    return {'labels': c['ops']}


def _plain(op, out):
    """Drop wall-clock vectors, which the loop returns after the points and responses."""
    return tuple(out)[:2] if op == 'loop' else out


@g.strat
def gen_step(draw):
    c = c14.gen_case(draw, kinds=('gp', 'tp', 'rf'), cma=False, max_n=8, max_num=4)
    c['debug'] = False
    c['e'] = draw(g.st.integers(0, 9999))
    c['loud'] = g.pick(draw, c['exp'], 'verbose')
    return c


@PROP.sub(gen_step, 300, 6000, lambda c: len(c['X']) > 1 and c['num'] > 1,
          'several observations and several starting points')
def proposals(c):
    """Proposal steps over every fitting option, quiet and verbose."""
    X, Y = g.A(c['X']), g.A(c['Y'])
    outs = []
    for flag in (False, True):
        with Entropy(c['e']):
            c = dict(c, debug=flag, exp=c['loud'] if flag else c['exp'])
            outs.append(c14.run_step(c, c14.make(c), X.copy(), Y.copy()))
    if outs[0] is None or outs[1] is None:
        ensure(outs[0] is None and outs[1] is None,
               'debug=True decides whether the proposal is possible')
        return {'nontrivial': False, 'labels': ['fit diverged']}
    if c['kind'] == 'rf':
        for o in outs:
            o[1].pop('trees', None)
    ensure(c22.same(c22.no_times(outs[0]), c22.no_times(outs[1])),
           'debug=True changes the proposal or its information')
    return {'labels': [c['kind'], c['fit'], c['sampling'], c['acq']]}


@g.strat
def gen_run(draw):
    c = draw(c31.gen())
    c['wrapper'] = g.pick(draw, 'class', 'function') if c['kind'] == 'gp' else 'class'
    c['thompson'] = c['kind'] == 'gp' and g.chance(draw, 15)
    c['init'] = g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton')
    c['loud'] = g.pick(draw, c['exp'], 'verbose')
    return c


@PROP.sub(gen_run, 260, 5000, lambda c: c['num_iter'] > 1 and len(c['X']) > 1,
          'several initial points and several iterations')
def runs(c):
    """Whole runs from any entry point, quiet and verbose, on the same random state."""
    R = g.A(c['range'])
    outs = []
    for flag in (False, False, True):
        with Entropy(c['e']):
            if c['thompson']:
                from bayeso import thompson_sampling as ts
                obj = c31.c15.Objective(c)
                kw = {'debug': True} if flag else {}
                try:
                    res = call(ts.thompson_sampling_gp, R.copy(), obj, len(c['X']),
                               c['num_iter'], normalize_Y=True, str_sampling_method=c['init'],
                               num_samples=8, **kw)
                except Violation as exc:
                    if not flag and len(obj.calls) >= len(c['X']) \
                            and c23.diverged(exc, obj.calls, obj.values):
                        return c23.DIVERGED
                    raise
            else:
                res = c31.by_loop(dict(c, debug=flag, exp=c['loud'] if flag else c['exp']),
                                  R.copy(), c['wrapper'])
            outs.append([np.asarray(res[0]), np.asarray(res[1]), np.random.get_state()[1].copy()])
    if not np.array_equal(outs[0][0], outs[1][0]):
        return {'nontrivial': False, 'labels': ['not reproducible']}
    for a, b, what in zip(outs[0], outs[2], ('evaluated points', 'responses', 'random state')):
        ensure(np.array_equal(a, b), 'debug=True changes the %s of a run', what)
    return {'labels': ['thompson' if c['thompson'] else c['kind'], c['entry'], c['wrapper']]}


@PROP.sub(c24.gen, 160, 3000, lambda c: len(c['steps']) > 2, 'at least three steps')
def histories(c):
    """Sequences of steps on one optimiser, whose schedule remembers earlier steps."""
    from bayeso import bo
    R = g.A(c['range'])
    quiet, loud = [call(bo.BOwGP, R, str_cov=c['cov'], normalize_Y=c['norm'], use_ard=c['ard'],
                        prior_mu=g.prior_fn(c['prior']), str_optimizer_method_gp=c['fit'],
                        str_modelselection_method=c['crit'], debug=flag) for flag in (False, True)]
    for i, s in enumerate(c['steps']):
        outs = []
        for model in (quiet, loud):
            try:
                outs.append(model.optimize(g.A(s['X']), g.A(s['Y']), num_samples=1,
                                           str_sampling_method='uniform',
                                           str_mlm_method=s['mode'], seed=s['seed']))
            except (np.linalg.LinAlgError, ValueError) as exc:
                if not c24.diverged(exc):
                    raise
                outs.append(None)
        ensure(c22.same(c22.no_times(outs[0]), c22.no_times(outs[1])),
               'debug=True changes step %d (%s) of a sequence of steps', i, s['mode'])
        if outs[0] is None:
            return {'nontrivial': False, 'labels': ['fit diverged']}
    return {'labels': sorted({s['mode'] for s in c['steps']})}
