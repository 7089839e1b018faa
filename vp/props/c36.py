"""C36: a run can be stopped and resumed, and its beginning does not depend on its length."""
import numpy as np

from vp import gens as g
from vp.core import Entropy, Prop, ensure
from vp.props import c15, c31

PROP = Prop('C36', 'Interrupted runs resume where they stopped', [
    'The interrupted and the uninterrupted run see the same stream of random numbers; a case whose '
    'uninterrupted run does not repeat itself is counted as trivial.',
    'CMA-ES seeds itself from the clock (behaviour of the cma package) and is not covered.  The '
    'converged schedule keeps its state in the optimiser, so it is resumed on the same object only.',
])


@g.strat
def gen(draw):
    c = draw(c31.gen())
    c['parts'] = [g.size(draw, 3) for _ in range(g.size(draw, 2, 3, low=2))]
    c['same_object'] = (c['kind'] == 'gp' and c['mlm'] == 'converged') or g.chance(draw, 40)
    c['by'] = g.pick(draw, 'class', 'function') if c['kind'] == 'gp' else 'class'
    if c['same_object'] and c['by'] == 'class':
        # a wrapper object has one number of iterations
        c['parts'] = c['parts'][:1] * len(c['parts'])
    c['num_iter'] = sum(c['parts'])
    c['kept'] = g.pick(draw, 'as_is', 'as_is', 'copy', 'text')
    return c


def start(c, R, obj, num_iter):
    cc = dict(c, wrapper=c['by'], num_iter=num_iter)
    b, model = c15.build(cc, obj, R.copy())
    return b, model, cc


def run_all(c, R, parts):
    obj = c15.Objective(c)
    X = g.A(c['X'])
    with Entropy(c['e']):
        b, model, cc = start(c, R, obj, parts[0])
        if c['entry'] == 'all':
            Y = np.array([[obj.value(x)] for x in X])
        else:
            Y = None
        out = [np.asarray(v) for v in c15.run(cc, b, model, obj, X, Y)]
        for k in parts[1:]:
            X, Y = stored(c, out[0]), stored(c, out[1])
            before = len(X)
            if c['same_object']:
                cc = dict(cc, num_iter=k)
            else:
                b, model, cc = start(c, R, obj, k)
            cc['entry'] = 'all'
            out = [np.asarray(v) for v in c15.run(cc, b, model, obj, X, Y)]
            ensure(len(out[0]) == before + k, 'resuming %d evaluations for %d iterations gives %d',
                   before, k, len(out[0]))
            ensure(np.array_equal(out[0][:before], X) and np.array_equal(out[1][:before], Y),
                   'the resumed run does not start with the evaluations it was given')
    return out[0], out[1], obj


def stored(c, A):
    """The history as it comes back from where it was kept meanwhile."""
    if c['kept'] == 'copy':
        return np.array(A, order='F')
    if c['kept'] == 'text':
        return np.array([[float(repr(float(v))) for v in row] for row in A])
    return A


@PROP.sub(gen, 300, 6000, lambda c: len(c['X']) > 1, 'several initial points')
def resumed(c):
    R = g.A(c['range'])
    X, Y, obj = run_all(c, R, [c['num_iter']])
    X2, Y2, _ = run_all(c, R, [c['num_iter']])
    if not np.array_equal(X, X2):
        return {'nontrivial': False, 'labels': ['not reproducible']}
    X2, Y2, again = run_all(c, R, c['parts'])
    ensure(X.shape == X2.shape, 'the resumed run has %d evaluations instead of %d', len(X2), len(X))
    if not np.array_equal(X, X2):
        ensure(False, 'the run resumed after %s iterations first differs at evaluation %d: %s '
               'instead of %s', c['parts'], *c31._first(X2, X))
    ensure(np.array_equal(Y, Y2), 'the resumed run reports other responses')
    ensure(len(obj.calls) == len(again.calls), 'the resumed run evaluates the objective %d times '
           'instead of %d', len(again.calls), len(obj.calls))
    return {'labels': [c['kind'], c['by'], 'same object' if c['same_object'] else 'new object']}


@PROP.sub(gen, 200, 4000, lambda c: len(c['X']) > 1, 'several initial points')
def prefix(c):
    R = g.A(c['range'])
    X, Y, _ = run_all(c, R, [c['num_iter']])
    k = c['parts'][0]
    A, B, _ = run_all(c, R, [k])
    m = len(A)
    if not np.array_equal(A, run_all(c, R, [k])[0]):
        return {'nontrivial': False, 'labels': ['not reproducible']}
    ensure(len(X) == m + c['num_iter'] - k, 'runs of %d and %d iterations have %d and %d '
           'evaluations', c['num_iter'], k, len(X), m)
    if not np.array_equal(X[:m], A):
        ensure(False, 'a run of %d instead of %d iterations already differs at evaluation %d: %s '
               'instead of %s', k, c['num_iter'], *c31._first(A, X[:m]))
    ensure(np.array_equal(Y[:m], B), 'a shorter run reports other responses')
    return {'labels': [c['kind'], c['entry']]}
