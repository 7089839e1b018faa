"""C13: initial points, candidates and grids lie in the box, in number, and fill it as named."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C13', 'Sampled points lie in the search box and follow the named design', [
    'Distribution checks use p-value thresholds of 1e-9 with the seed taken from the case.',
    'Bounds are compared up to 2 ulp-sized rounding of the affine rescaling.',
])
METHODS = ['uniform', 'gaussian', 'sobol', 'halton']
PRIMES = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


@g.strat
def gen(draw):
    d = g.size(draw, 4, 10, 24)
    num = g.size(draw, 12, 130, 600, p_big=4)
    if g.chance(draw, 30):
        num = 2 ** int(np.log2(num))
    return {'range': g.ranges(draw, d), 'method': g.pick(draw, *METHODS),
            'num': num, 'seed': draw(st.integers(0, 2**31 - 1)),
            'seeded': g.chance(draw, 75), 'bo': g.pick(draw, 'gp', 'tp', 'rf'),
            'initials': g.chance(draw, 50), 'debug': g.chance(draw, 5)}


def make(name, R, debug=False):
    from bayeso.bo import bo_w_gp, bo_w_tp, bo_w_trees
    cls = {'gp': bo_w_gp.BOwGP, 'tp': bo_w_tp.BOwTP, 'rf': bo_w_trees.BOwTrees}[name]
    return call(cls, R, debug=debug)


def in_box(P, R, name):
    slack = 4 * ref.EPS * (np.abs(R[:, 0]) + np.abs(R[:, 1]))
    ensure(np.all(P >= R[:, 0] - slack) and np.all(P <= R[:, 1] + slack),
           '%s: a point lies outside the search box', name)


@PROP.sub(gen, 6000, 60000, lambda c: c['num'] > 1 and any(b > a for a, b in c['range']),
          'several points in a box of positive size')
def box(c):
    R = g.A(c['range'])
    d, num, m = len(R), c['num'], c['method']
    bo = make(c['bo'], R.copy(), c['debug'])
    seed = c['seed'] if c['seeded'] else None

    def sample(s):
        if c['initials']:
            return call(bo.get_initials, m, num, seed=s)
        return call(bo.get_samples, m, num_samples=num, seed=s)
    P = ref.out(sample(seed), (num, d), m + ' points')
    in_box(P, R, m)
    Q = ref.out(sample(seed), (num, d), m + ' points (second call)')
    live = R[:, 1] > R[:, 0]
    if seed is not None:
        ensure(np.array_equal(P, Q), '%s: the same seed gives different points', m)
        Z = sample((seed + 1) % (2**31))
        if live.any() and m != 'gaussian':
            ensure(not np.array_equal(P, Z), '%s: different seeds give the same points', m)
    elif live.any() and m != 'gaussian':
        ensure(not np.array_equal(P, Q), '%s: two unseeded calls give the same points', m)
    U = (P[:, live] - R[live, 0]) / (R[live, 1] - R[live, 0])
    fuzz = 1e-9 + 1e3 * ref.EPS * np.max(np.abs(R)) / (np.min((R[:, 1] - R[:, 0])[live])
                                                       if live.any() else 1.0)
    if m in ('uniform', 'sobol', 'halton') and num > 1 and live.any():
        ensure(len(np.unique(P[:, live], axis=0)) == num, '%s: repeated points', m)
    if m == 'sobol':
        n = 2 ** int(np.log2(num))
        stratified(U[:n], n, fuzz, 'sobol')
    if m == 'halton':
        for j, k in enumerate(np.flatnonzero(live)):
            p = PRIMES[k]
            n = p
            while n * p <= num:
                n *= p
            if n <= num:
                stratified(U[:n, j:j + 1], n, fuzz, f'halton (dimension {k})')
    return {'labels': [m, c['bo'], 'seeded' if c['seeded'] else 'unseeded']}


def stratified(U, n, fuzz, name):
    for j in range(U.shape[1]):
        u = np.sort(U[:, j]) * n
        i = np.arange(n)
        ensure(np.all(u >= i - fuzz * n) and np.all(u <= i + 1 + fuzz * n),
               '%s: %d points do not fall one in each of %d equal intervals', name, n, n)


@g.strat
def gen_grid(draw):
    d = g.size(draw, 3, 4)
    return {'range': g.ranges(draw, d, degenerate=True), 'k': g.size(draw, {1: 60, 2: 14, 3: 7, 4: 4}[d]),
            'bo': g.pick(draw, 'gp', 'tp', 'rf', 'fn')}


@PROP.sub(gen_grid, 2500, 30000, lambda c: c['k'] > 1 and len(c['range']) > 1,
          'a grid with several values in several dimensions')
def grid(c):
    from bayeso.utils import utils_common
    R, k = g.A(c['range']), c['k']
    d = len(R)
    if c['bo'] == 'fn':
        P = call(utils_common.get_grids, R.copy(), k)
    else:
        P = call(make(c['bo'], R.copy()).get_samples, 'grid', num_samples=k)
    P = ref.out(P, (k ** d, d), 'grid')
    in_box(P, R, 'grid')
    axes = [np.array([lo + (hi - lo) * i / max(k - 1, 1) for i in range(k)]) for lo, hi in R]
    live = [j for j in range(d) if R[j, 1] > R[j, 0]]
    seen = {}
    for row in P:
        idx = []
        for j in range(d):
            i = int(np.argmin(np.abs(axes[j] - row[j]))) if j in live else 0
            ref.close(row[j], axes[j][i], 1e-9 * (abs(axes[j][i]) + R[j, 1] - R[j, 0]) + 1e-12,
                      'grid coordinate in dimension %d', j)
            idx.append(i)
        seen[tuple(idx)] = seen.get(tuple(idx), 0) + 1
    mult = k ** (d - len(live))
    ensure(len(seen) == k ** len(live) and set(seen.values()) == {mult},
           'grid is not the full Cartesian product: %d distinct points of %d', len(seen),
           k ** len(live))


@g.strat
def gen_dist(draw):
    d = g.size(draw, 3, 5)
    return {'range': g.ranges(draw, d, degenerate=False), 'method': g.pick(draw, 'uniform', 'gaussian'),
            'seed': draw(st.integers(0, 2**31 - 1)), 'bo': g.pick(draw, 'gp', 'tp', 'rf')}


@PROP.sub(gen_dist, 160, 3000, lambda c: len(c['range']) > 1, 'more than one dimension')
def distribution(c):
    R = g.A(c['range'])
    n, d = 2500, len(R)
    P = ref.out(call(make(c['bo'], R.copy()).get_samples, c['method'], num_samples=n,
                     seed=c['seed']), (n, d), 'points')
    U = (P - R[:, 0]) / (R[:, 1] - R[:, 0])
    V = []
    for j in range(d):
        u = U[:, j]
        if c['method'] == 'uniform':
            p = ss.kstest(u, 'uniform').pvalue
            V.append(u - 0.5)
        else:
            z = (u - 0.5) * 4
            edge = np.abs(np.abs(z) - 2) < 1e-6
            p = ss.binomtest(int(edge.sum()), n, 2 * ss.norm.sf(2)).pvalue
            ensure(p > 1e-9, 'gaussian: %d of %d coordinates clipped to the bounds', edge.sum(), n)
            p = ss.kstest(z[~edge], ss.truncnorm(-2, 2).cdf).pvalue
            V.append(z)
        ensure(p > 1e-9, '%s: coordinate %d does not follow the named distribution (p=%g)',
               c['method'], j, p)
    C = np.corrcoef(np.array(V)) if d > 1 else np.eye(1)
    off = np.abs(C - np.diag(np.diag(C))).max()
    ensure(off * np.sqrt(n) < 7.0, '%s: coordinates are correlated (%.3f)', c['method'], off)
    lag = max(abs(np.corrcoef(v[1:], v[:-1])[0, 1]) for v in V)
    ensure(lag * np.sqrt(n) < 7.0, '%s: successive points are correlated (%.3f)', c['method'], lag)

PROP.sub(g.huge(gen, 10), 320, 4000, None, 'one size of the case is beyond its ordinary maximum',
         name='box_huge')(box)
