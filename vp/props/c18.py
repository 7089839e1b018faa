"""C18: every tree is a valid, fully populated partition of its sample."""
import collections

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from vp import gens as g
from vp.core import Prop, call, ensure

PROP = Prop('C18', 'Regression trees partition their training sample consistently', [
    'Generic trees are built with sampling ratios that select at least one row.',
    'Splits are compared with an exhaustive search only where the builder searches exhaustively '
    '(all features offered, at most 20 thresholds per feature).',
])


@g.strat
def gen(draw):
    d = g.size(draw, 4, 8, 20)
    n = g.size(draw, 12, 60, 160, p_big=2)
    kind = g.pick(draw, 'forest', 'generic', 'generic')
    replace = g.chance(draw, 50)
    ratio = (g.pick(draw, 1.0, 0.5, 0.8, 0.3, draw(st.integers(1, 16)) / 16) if not replace
             else g.pick(draw, 1.0, 0.5, 2.0, 1.5, 3.0, draw(st.integers(1, 80)) / 16))
    if int(n * ratio) < 1:
        ratio = 1.0
    X, Y = g.points(draw, n, d), g.responses(draw, n)
    if g.chance(draw, 15):
        # large responses (the squared error of a node is far above 1e8)
        f = g.pick(draw, 1e4, 1e5, 1e7)
        Y = [[round(y[0], 3) * f] for y in Y]
    if g.chance(draw, 20):
        # features that cannot be split, as for a side of width zero
        for j in range(d):
            if g.chance(draw, 60):
                X = [x[:j] + [X[0][j]] + x[j + 1:] for x in X]
    # features that differ in their last digits only
    X = g.nearly_tied(draw, X, p=12)
    return {'kind': kind, 'X': X, 'Y': Y,
            'trees': g.size(draw, 4, 12, 110, p_big=1),
            'depth': g.size(draw, 6, 12, 25, p_big=2), 'leaf': g.size(draw, 4, 10, 50, p_big=2),
            'features': d if g.chance(draw, 50) else draw(st.integers(1, d)),
            'ratio': ratio, 'replace': replace, 'random': g.chance(draw, 40)}


def build(c, X, Y):
    from bayeso import trees
    if c['kind'] == 'forest':
        return call(trees.get_random_forest, X, Y, c['trees'], c['depth'], c['leaf'],
                    c['features'])
    return call(trees.get_generic_trees, X, Y, c['trees'], c['depth'], c['leaf'], c['ratio'],
                c['replace'], c['features'], c['random'])


def leaf_rows(leaf):
    rows = []
    for pair in leaf:
        ensure(isinstance(pair, (tuple, list)) and len(pair) == 2, 'a leaf entry is not a pair')
        x, y = np.asarray(pair[0], float).ravel(), np.asarray(pair[1], float).ravel()
        ensure(y.size == 1, 'a leaf response has size %d', y.size)
        rows.append((tuple(x.tolist()), float(y[0])))
    return rows


class Walker:
    def __init__(self, c, d):
        self.c, self.d = c, d
        self.leaves = 0
        self.depth = 0
        self.degenerate = 0
        self.exhaustive = 0

    def walk(self, node, depth):
        """Returns the rows below the node, each counted once."""
        c = self.c
        ensure(isinstance(node, dict), 'a node is %s', type(node).__name__)
        ensure(depth <= max(c['depth'], 1), 'the tree is deeper than %d', c['depth'])
        self.depth = max(self.depth, depth)
        for k in ('index', 'value', 'left', 'right'):
            ensure(k in node, 'a node has no %s', k)
        i, v = node['index'], float(node['value'])
        ensure(0 <= i < self.d and int(i) == i, 'split feature %s of %d', i, self.d)
        i = int(i)
        sides = {}
        for side in ('left', 'right'):
            child = node[side]
            if isinstance(child, dict):
                rows = self.walk(child, depth + 1)
                ensure(len(rows) > c['leaf'],
                       'a node with %d rows was split although leaves of %d are allowed',
                       len(rows), c['leaf'])
            else:
                ensure(isinstance(child, list) and len(child) > 0, 'a leaf is empty')
                rows = leaf_rows(child)
            sides[side] = rows
        L, R = sides['left'], sides['right']
        xs = [r[0][i] for r in L]
        if collections.Counter(L) == collections.Counter(R) and not isinstance(node['left'], dict) \
                and (all(x < v for x in xs) or all(x >= v for x in xs)):
            # nothing could be separated: both sides hold the whole sample
            self.degenerate += 1
            self.leaves += 1
            rows = L
            if c['kind'] == 'generic' and c['random']:
                self.inseparable(rows)
            else:
                self.optimal(rows, None, depth)
        else:
            rows = L + R
            for x, _ in L:
                ensure(x[i] < v, 'a row with value %r is left of threshold %r', x[i], v)
            for x, _ in R:
                ensure(x[i] >= v, 'a row with value %r is right of threshold %r', x[i], v)
            for side in ('left', 'right'):
                if not isinstance(node[side], dict):
                    self.leaves += 1
                    ensure(len(sides[side]) <= c['leaf'] or depth >= c['depth'],
                           'a leaf of %d rows above the maximum depth (limit %d)',
                           len(sides[side]), c['leaf'])
            if not (c['kind'] == 'generic' and c['random']):
                self.optimal(rows, score(L, R), depth)
        return rows

    def inseparable(self, rows):
        """Random thresholds separate rows whenever one of the offered features differs."""
        if self.c['features'] == self.d:
            for j in range(self.d):
                v = [x[j] for x, _ in rows]
                ensure(max(v) - min(v) <= 1e-9 * max(1.0, abs(max(v)), abs(min(v))),
                       'rows whose feature %d ranges over [%r, %r] were not separated', j,
                       min(v), max(v))

    def optimal(self, rows, got, depth):
        """Deterministic splits minimise the sum of the two children's mean squared errors."""
        c = self.c
        if c['kind'] == 'generic' and c['random'] or c['features'] != self.d:
            return
        ys = [y for _, y in rows]
        scale = max(1.0, max(abs(y) for y in ys)) ** 2
        if scale > 1e30:
            return
        best = np.inf
        for j in range(self.d):
            vals = sorted({x[j] for x, _ in rows})
            if len(vals) > 21:
                return
            for a, b in zip(vals[:-1], vals[1:]):
                t = (a + b) / 2.0
                L = [r for r in rows if r[0][j] < t]
                R = [r for r in rows if r[0][j] >= t]
                if L and R:
                    best = min(best, score(L, R))
        if got is None:
            ensure(best == np.inf,
                   'rows that differ were not separated (a split with score %g exists)', best)
        else:
            self.exhaustive += 1
            ensure(got <= best + 1e-7 * (1 + abs(best)) + 1e-13 * scale,
                   'a split has score %g, another one has %g', got, best)


def score(L, R):
    return float(np.var([y for _, y in L]) + np.var([y for _, y in R]))


@PROP.sub(gen, 5000, 60000, lambda c: len({tuple(x) for x in c['X']}) > 2, 'three distinct inputs')
def structure(c):
    X, Y = g.A(c['X']), g.A(c['Y'])
    n, d = X.shape
    kx, ky = X.copy(), Y.copy()
    trees = build(c, X, Y)
    ensure(np.array_equal(X, kx) and np.array_equal(Y, ky), 'the training data were modified')
    ensure(isinstance(trees, list) and len(trees) == c['trees'], 'expected %d trees', c['trees'])
    data = collections.Counter((tuple(x), y[0]) for x, y in zip(X.tolist(), Y.tolist()))
    ratio, replace = (1.0, True) if c['kind'] == 'forest' else (c['ratio'], c['replace'])
    deg = ex = 0
    for t in trees:
        w = Walker(c, d)
        rows = w.walk(t, 1)
        deg += w.degenerate
        ex += w.exhaustive
        ensure(len(rows) == int(n * ratio), 'a tree holds %d rows, expected %d of %d', len(rows),
               int(n * ratio), n)
        count = collections.Counter(rows)
        for r, k in count.items():
            ensure(r in data, 'a leaf holds a row that is not in the training data')
            ensure(replace or k <= data[r], 'a row was drawn %d times without replacement', k)
        ensure(w.leaves <= 2 ** max(c['depth'], 1), 'too many leaves')
    return {'labels': [c['kind'], 'random' if c['random'] and c['kind'] == 'generic' else 'best',
                       'degenerate' if deg else 'regular', 'optimal splits' if ex else 'no search']}


@g.strat
def gen_boot(draw):
    return {'n': draw(st.integers(6, 14)), 'kind': g.pick(draw, 'forest', 'generic'),
            'replace': g.chance(draw, 50), 'seed': draw(st.integers(0, 2**31 - 1)),
            'd': draw(st.integers(2, 4))}


@PROP.sub(gen_boot, 60, 1200, None, 'every case builds 150 trees')
def sampling(c):
    """Rows are drawn uniformly and every feature gets used."""
    r = np.random.RandomState(c['seed'])
    n, d = c['n'], c['d']
    X, Y = r.rand(n, d), r.randn(n, 1)
    T = 150
    cc = dict(kind=c['kind'], trees=T, depth=2, leaf=1, features=1, ratio=0.5,
              replace=c['replace'], random=False)
    np.random.seed(c['seed'] ^ 99)
    trees = build(cc, X, Y)
    index = {tuple(x): i for i, x in enumerate(X.tolist())}
    counts = np.zeros(n)
    distinct = []
    feats = collections.Counter()
    for t in trees:
        rows = Walker(cc, d).walk(t, 1)
        feats[int(t['index'])] += 1
        ids = [index[x] for x, _ in rows]
        distinct.append(len(set(ids)))
        for i in ids:
            counts[i] += 1
    total = counts.sum()
    stat = float(np.sum((counts - total / n) ** 2 / (total / n)))
    ensure(ss.chi2.sf(stat, n - 1) > 1e-9, 'rows are not sampled uniformly: %s', counts.tolist())
    m = int(n * (1.0 if c['kind'] == 'forest' else 0.5))
    if c['kind'] == 'forest' or c['replace']:
        if m > 2:
            ensure(min(distinct) < m, 'sampling with replacement never repeats a row')
    else:
        ensure(set(distinct) == {m}, 'sampling without replacement repeats a row')
    p = ss.chisquare([feats.get(j, 0) for j in range(d)]).pvalue
    ensure(p > 1e-9, 'root features are not drawn uniformly: %s', dict(feats))



@g.strat
def gen_reach(draw):
    m = g.size(draw, 80, 120, 300, p_big=5, low=25)
    d = draw(st.integers(1, 3))
    k = d if g.chance(draw, 70) else draw(st.integers(1, d))
    return {'m': m, 'd': d, 'features': k, 'at': draw(st.integers(1, m - 1)),
            'feature': draw(st.integers(0, d - 1)), 'kind': g.pick(draw, 'forest', 'generic'),
            'seed': draw(st.integers(0, 2**31 - 1)),
            'trees': int(min(400, 30 * m / 20 * d / k))}


@PROP.sub(gen_reach, 100, 1200, None, 'more distinct values than thresholds are tried')
def reachable(c):
    """Where only some thresholds and features are tried, every one of them can be the split.

    The responses step at one threshold of one feature.  If the threshold and the feature are
    among those offered, this split is the best (its error is zero), so it has to be used at
    least as often as 20 thresholds and the features offered contain it.
    """
    r = np.random.RandomState(c['seed'])
    m, d, j = c['m'], c['d'], c['feature']
    X = r.rand(m, d)
    order = np.argsort(X[:, j])
    Y = np.zeros((m, 1))
    Y[order[c['at']:]] = 1.0
    cc = dict(kind=c['kind'], trees=c['trees'], depth=1, leaf=1, features=c['features'],
              ratio=1.0, replace=False, random=False)
    np.random.seed(c['seed'] ^ 77)
    trees = build(cc, X, Y)
    hits, rate = 0, []
    for t in trees:
        rows = Walker(cc, d).walk(t, 1)
        ys = [y for _, y in rows]
        distinct = len({x[j] for x, _ in rows})
        if len(set(ys)) < 2:
            continue
        rate.append(c['features'] / d * min(1.0, 20.0 / max(distinct - 1, 1)))
        L = {y for x, y in rows if x[int(t['index'])] < t['value']}
        R = {y for x, y in rows if x[int(t['index'])] >= t['value']}
        hits += len(L) == 1 and len(R) == 1
    p = float(ss.binom.cdf(hits, len(rate), np.mean(rate))) if rate else 1.0
    ensure(p > 1e-9, 'a split without error was used in %d of %d trees, at least %.2f expected',
           hits, len(rate), sum(rate))
    return {'labels': [c['kind'], 'all features' if c['features'] == d else 'some features']}


PROP.sub(g.huge(gen, 4), 64, 800, None, 'one size of the case is beyond its ordinary maximum',
         name='structure_huge')(structure)
