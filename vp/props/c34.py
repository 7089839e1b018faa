"""C34: separate optimisers do not influence each other, whatever the order of their steps."""
import os
import pickle
import signal
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp.core import Entropy, Prop, Violation, ensure
from vp.props import c14, c15, c22

PROP = Prop('C34', 'Separate optimisers do not influence each other', [
    'Every history runs in a freshly forked process, so the reference (one optimiser alone) and '
    'the mixed run both start without any past; wall-clock entries are left out.',
    'Steps that draw from unseeded generators are compared with the generators in the same state '
    'at the start of the step; histories that run in parallel threads use seeded steps of '
    'GP and TP optimisers only.',
])
KEEP = ('kind', 'cov', 'acq', 'norm', 'ard', 'prior', 'opt', 'fit', 'crit', 'mlm', 'sampling',
        'num', 'exp', 'range')


def objective(r, A, X):
    Z = (np.array(X) - A[:, 0]) / np.maximum(A[:, 1] - A[:, 0], 1e-9)
    return (np.sum((Z - 0.4) ** 2, axis=1, keepdims=True) * 5.0
            + 0.02 * r.randn(len(X), 1)).round(5).tolist()


def settings(draw, threads):
    c = c14.gen_case(draw, kinds=('gp', 'gp', 'tp') if threads else ('gp', 'gp', 'tp', 'rf'),
                     cma=False, max_n=5, max_num=3)
    c = {k: c[k] for k in KEEP}
    if c['kind'] == 'gp' and g.chance(draw, 45):
        c['mlm'] = 'converged'
    if c['kind'] == 'gp' and c['fit'] not in ('L-BFGS-B', 'SLSQP-Bounded') and g.chance(draw, 70):
        c['fit'] = 'L-BFGS-B'
    if c['kind'] == 'rf':
        c['sampling'] = g.pick(draw, 'uniform', 'sobol', 'halton')
    if c['sampling'] == 'grid':
        c['num'] = min(c['num'], 2)
    c['num'] = min(c['num'], 6)
    c['wrap'] = not threads and g.chance(draw, 20)
    c.update(fun='sphere', ret='float', sleep=False, wrapper='class', entry='seeded', num_iter=1,
             init=g.pick(draw, 'sobol', 'uniform', 'gaussian', 'halton'), seed=3)
    return c


def vary(draw, c, threads):
    """Another optimiser: the same settings, one of them changed, or unrelated ones."""
    kind = g.pick(draw, 'twin', 'twin', 'variant', 'variant', 'box', 'box', 'other')
    if kind == 'other':
        return settings(draw, threads)
    v = dict(c)
    if kind == 'box':
        A = np.array(c['range'])
        v['range'] = (A + g.pick(draw, 1.0, np.array([0.0, 0.5]), np.array([-0.25, 0.5]))).tolist()
    if kind == 'variant':
        k = g.pick(draw, 'cov', 'acq', 'norm', 'ard', 'fit', 'mlm', 'exp', 'prior', 'sampling')
        if k == 'cov':
            v['cov'] = g.pick(draw, *g.COV_BASE)
        elif k == 'acq':
            v['acq'] = g.pick(draw, 'ei', 'ucb', 'pi', 'aei', 'pure_explore', 'pure_exploit')
        elif k in ('norm', 'ard'):
            v[k] = not c[k]
        elif k == 'fit' and c['kind'] == 'gp':
            v['fit'] = g.pick(draw, 'L-BFGS-B', 'BFGS', 'SLSQP-Bounded')
        elif k == 'mlm':
            v['mlm'] = g.pick(draw, 'regular', 'converged')
        elif k == 'exp':
            v['exp'] = g.pick(draw, None, 'a', 'b')
        elif k == 'prior':
            v['prior'] = g.prior(draw, p_none=30)
        elif k == 'sampling':
            v['sampling'] = g.pick(draw, 'sobol', 'uniform', 'halton')
    return v


def history(draw, c, other, threads):
    """Steps of one optimiser; data may coincide with that of another optimiser."""
    A = np.array(c['range'])
    d = len(A)
    r = g.rnd(draw)
    steps, X, Y = [], None, None
    # mostly the same seed everywhere
    fixed = g.pick(draw, 3, 3, 8)
    same_data = other is not None and len(other[0]['range']) == d and g.chance(draw, 60)
    for i in range(draw(st.integers(1, 4))):
        if same_data and i < len(other[1]):
            o = other[1][i]
            B = np.array(other[0]['range'])
            X = (A[:, 0] + (np.array(o['X']) - B[:, 0]) / np.maximum(B[:, 1] - B[:, 0], 1e-9)
                 * (A[:, 1] - A[:, 0])).tolist() if c['range'] != other[0]['range'] else o['X']
            Y = o['Y'] if g.chance(draw, 60) else objective(r, A, X)
        elif X is None or g.chance(draw, 15):
            X = (A[:, 0] + r.rand(draw(st.integers(2, 5)), d) * (A[:, 1] - A[:, 0])).tolist()
            Y = objective(r, A, X)
        elif g.chance(draw, 60):
            x = (A[:, 0] + r.rand(1, d) * (A[:, 1] - A[:, 0])).tolist()
            X, Y = X + x, Y + objective(r, A, x)
        elif g.chance(draw, 40):
            Y = (np.array(Y) + 0.02 * r.randn(len(Y), 1)).tolist()
        ops = ['step'] * 5 + ['initials', 'samples', 'samples', 'posterior', 'values']
        if c['wrap']:
            ops += ['run', 'run', 'iterate', 'iterate']
        steps.append({'op': g.pick(draw, *ops), 'X': X, 'Y': Y,
                      'seed': fixed if g.chance(draw, 60) else draw(st.integers(0, 999)),
                      'e': draw(st.integers(0, 9999))})
    return steps


def gen_mode(draw, threads):
    first = settings(draw, threads)
    objs = [first]
    for _ in range(1 if g.chance(draw, 60) else draw(st.integers(2, 3))):
        objs.append(vary(draw, first, threads))
    hist = []
    for c in objs:
        hist.append(history(draw, c, (objs[0], hist[0]) if hist else None, threads))
    turns = [i for i, h in enumerate(hist) for _ in h]
    how = g.pick(draw, 'random', 'random', 'rounds', 'sequence')
    if how == 'random':
        turns = draw(st.permutations(turns))
    elif how == 'rounds':
        turns = [i for k in range(max(map(len, hist))) for i, h in enumerate(hist) if k < len(h)]
    return {'objs': objs, 'hist': hist, 'turns': list(turns),
            'build': g.pick(draw, 'first', 'first', 'late')}


@g.strat
def gen(draw):
    return gen_mode(draw, False)


@g.strat
def gen_threads(draw):
    return gen_mode(draw, True)


class Optimiser:
    def __init__(self, c):
        self.c = c
        self.last = None
        if c['wrap']:
            self.obj = c15.Objective(c)
            self.wrapper, self.bo = c15.build(c, self.obj, g.A(c['range']))
        else:
            self.bo = c14.make(c)

    def do(self, s):
        c, bo = self.c, self.bo
        X, Y = g.A(s['X']), g.A(s['Y'])
        op = s['op']
        if op == 'run':
            # the other entries are durations
            return self.wrapper.optimize(2, seed=s['seed'])[:2]
        if op == 'iterate':
            return self.wrapper.optimize_single_iteration(X, Y)
        if op == 'initials':
            return bo.get_initials('sobol' if s['seed'] % 2 else 'uniform', 3, seed=s['seed'])
        if op == 'samples':
            return bo.get_samples('halton' if s['seed'] % 2 else 'gaussian', 3, seed=s['seed'])
        if op in ('posterior', 'values') and self.last is not None and c['kind'] != 'rf':
            X0, Y0, info = self.last
            T = g.A(c['range']).mean(axis=1, keepdims=True).T + np.zeros((2, 1))
            f = bo.compute_posteriors if op == 'posterior' else None
            if f is not None:
                return f(X0, Y0, T, info['cov_X_X'], info['inv_cov_X_X'], info['hyps'])
            return bo.compute_acquisitions(T, X0, Y0, info['cov_X_X'], info['inv_cov_X_X'],
                                           info['hyps'])
        kw = dict(str_sampling_method=c['sampling'], num_samples=c['num'], seed=s['seed'])
        if c['kind'] == 'gp':
            kw['str_mlm_method'] = c['mlm']
        res = bo.optimize(X, Y, **kw)
        if c['kind'] != 'rf':
            self.last = (X, res[1]['Y_normalized'], res[1])
        return res

    def attempt(self, s):
        try:
            return self.do(s)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as exc:  # noqa: BLE001 - compared with what happens alone
            return ('raised', type(exc).__name__)


def mixed(c, turns, threads=False):
    """Results per optimiser of the steps in the given order, as returned and at the end."""
    objs = [None] * len(c['objs'])
    live = [[] for _ in objs]
    kept = [[] for _ in objs]
    used = sorted(set(turns))
    if c['build'] == 'first' or threads:
        for i in used:
            objs[i] = Optimiser(c['objs'][i])
    if threads:
        gate = threading.Barrier(len(used))

        def work(i):
            gate.wait()
            for s in c['hist'][i]:
                v = objs[i].attempt(s)
                live[i].append(v)
                kept[i].append(c22.snap(v))
        sys.setswitchinterval(1e-5)
        pool = [threading.Thread(target=work, args=(i,)) for i in used]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
        return kept, live
    at = [0] * len(objs)
    for i in turns:
        if objs[i] is None:
            objs[i] = Optimiser(c['objs'][i])
        s = c['hist'][i][at[i]]
        at[i] += 1
        with Entropy(s['e']):
            v = objs[i].attempt(s)
        live[i].append(v)
        kept[i].append(c22.snap(v))
    return kept, live


def apart(fn, *args):
    """The value of fn(*args), computed in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = ('ok', fn(*args))
            except Violation as exc:
                out = ('violation', str(exc))
            except Exception as exc:  # noqa: BLE001
                out = ('error', f'{type(exc).__name__}: {exc}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    done = False
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        done = True
    finally:
        if not done:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    ensure(data, 'the process running the history died')
    what, v = pickle.loads(data)
    ensure(what == 'ok', 'history failed: %s', v)
    return v


def judge(c, threads):
    import bayeso  # noqa: F401 - imported before forking
    from bayeso import wrappers  # noqa: F401
    steps = [len(h) for h in c['hist']]
    kept, live = apart(mixed, c, c['turns'], threads)
    ok = 0
    for i, n in enumerate(steps):
        alone, _ = apart(mixed, c, [i] * n)
        for k in range(n):
            a, b = c22.no_times(alone[i][k]), c22.no_times(kept[i][k])
            what = f"step {k} ({c['hist'][i][k]['op']}) of optimiser {i}"
            ensure(c22.same(a, b), '%s depends on the other optimisers: alone %s, among others %s',
                   what, short(a), short(b))
            ensure(c22.same(kept[i][k], live[i][k]), '%s: its result changed afterwards', what)
            ok += not (isinstance(a, tuple) and len(a) and isinstance(a[0], str))
    return {'nontrivial': ok >= 2, 'labels': sorted({o['kind'] for o in c['objs']})}


def short(v):
    return ' '.join(repr(v).split())[:160]


def talking(c):
    """At least two optimisers that take turns."""
    t = c['turns']
    return len(set(t)) > 1


@PROP.sub(gen, 300, 6000, talking, 'at least two optimisers take steps')
def interleaved(c):
    return judge(c, False)


@PROP.sub(gen_threads, 120, 2500, talking, 'at least two optimisers run in threads')
def parallel(c):
    return judge(c, True)
