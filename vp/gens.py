"""Hypothesis strategies; every case they produce is JSON-serialisable.

Arrays are nested lists.  Small arrays are usually drawn element by element
(so they shrink to short, round numbers); larger ones are expanded from a drawn
integer, which keeps generation cheap and still replays exactly because the
expanded numbers, not the integer, are stored in the case.
"""
import copy
import functools

import numpy as np
from hypothesis import strategies as st

COV_BASE = ['se', 'eq', 'matern32', 'matern52']
COV_SET = ['set_' + s for s in COV_BASE]


def pick(draw, *options):
    return draw(st.sampled_from(list(options)))


def chance(draw, percent):
    """True with about the given percentage (False is the simpler value)."""
    return draw(st.integers(0, 99)) >= 100 - percent


def rnd(draw):
    return np.random.RandomState(draw(st.integers(0, 2**31 - 1)))


_HUGE = []


def huge(factory, factor=4):
    """The same cases, but usually with one of their sizes beyond its ordinary maximum."""
    @st.composite
    def comp(draw):
        _HUGE.append([factor, False])
        try:
            return draw(factory())
        finally:
            _HUGE.pop()
    return lambda: comp()


POINTS = ('X', 'Xp', 'Xs', 'P', 'Y', 'mean', 'std', 'T', 'mu')


def relate(draw, case):
    """The same case with one or two of its ingredients changed, within the domain."""
    c = copy.deepcopy(case)
    keys = [k for k in ('h', 'h', 'cov', 'fix_noise', 'prior') + POINTS
            if k in c and c[k] is not None]
    for _ in range(draw(st.integers(1, 2))):
        k = pick(draw, *keys)
        v = c[k]
        if k == 'h':
            e = pick(draw, *[e for e in sorted(v) if v[e] is not None])
            f = pick(draw, 1.25, 0.8, 1.01)
            if e == 'lengthscales' and isinstance(v[e], list):
                if len(v[e]) > 1 and chance(draw, 50):
                    v[e] = v[e][::-1]
                else:
                    i = draw(st.integers(0, len(v[e]) - 1))
                    v[e][i] *= f
            elif e in ('noise', 'signal', 'dof', 'lengthscales'):
                v[e] = v[e] * f + (0.5 if e == 'dof' else 0.0)
        elif k == 'cov':
            c[k] = pick(draw, *(COV_SET if v.startswith('set_') else COV_BASE))
        elif k == 'prior':
            c[k] = prior(draw, 40)
        elif k == 'fix_noise':
            c[k] = not v
        elif len(v) > 1:
            how = pick(draw, 'reverse', 'swap', 'repeat', 'drop')
            i, j = (draw(st.integers(0, len(v) - 1)) for _ in range(2))
            if how == 'reverse':
                c[k] = v[::-1]
            elif how == 'swap':
                v[i], v[j] = v[j], v[i]
            elif how == 'repeat':
                v[i] = copy.deepcopy(v[j])
            elif k in ('Xp', 'Xs', 'P'):
                c[k] = v[:-1]
    return c


def related(factory):
    """A case, one that differs from it in an ingredient or two, and mostly the first again."""
    @st.composite
    def comp(draw):
        a = draw(factory())
        b = relate(draw, a)
        return {'calls': [a, b, a] if chance(draw, 70) else [a, b]}
    return lambda: comp()


def each(fn):
    """The check applied to every call of a sequence from `related`."""
    def run(c):
        labels = set()
        for case in c['calls']:
            out = fn(case)
            labels.update((out or {}).get('labels', ()))
        return {'labels': sorted(labels), 'nontrivial': c['calls'][0] != c['calls'][1]}
    return run


def size(draw, small, mid=None, big=None, p_mid=15, p_big=3, low=1):
    """A size: mostly `low..small`, sometimes up to mid, rarely up to big."""
    if _HUGE and big is not None and not _HUGE[-1][1] and chance(draw, 60):
        _HUGE[-1][1] = True
        return draw(st.integers(big + 1, _HUGE[-1][0] * big))
    k = draw(st.integers(0, 99))
    if big is not None and k >= 100 - p_big:
        return draw(st.integers((mid or small) + 1, big))
    if mid is not None and k >= 100 - p_big - p_mid:
        return draw(st.integers(small + 1, mid))
    return draw(st.integers(low, small))


def dims(draw, small=4, mid=8):
    return size(draw, small, mid, p_mid=12)


def positive(draw, lo=1e-2, hi=1e2):
    """Log-uniform positive number, simplest at 1."""
    if chance(draw, 35):
        for v in (1.0, 0.5, 2.0):
            if lo <= v <= hi and chance(draw, 50):
                return v
        return float(lo)
    e = draw(st.integers(int(np.ceil(np.log10(lo) * 100)), int(np.floor(np.log10(hi) * 100))))
    return float(np.clip(round(10.0 ** (e / 100.0), 6), lo, hi))


def points(draw, n, d, spread=None, dup=True, lo=None, hi=None):
    """(n, d) list of rows.

    Styles: lattice points (exact ties and symmetric distances), continuous in
    a box, clustered, shifted far from the origin, with repeated rows.
    """
    if lo is not None:
        lo = np.asarray(lo, float)
        hi = np.asarray(hi, float)
    style = draw(st.integers(0, 5))
    if style == 0 and n * d <= 24:
        vals = draw(st.lists(st.integers(-8, 8), min_size=n * d, max_size=n * d))
        X = np.array(vals, float).reshape(n, d) / 4.0
        if lo is not None:
            X = lo + (X + 2.0) / 4.0 * (hi - lo)
    else:
        r = rnd(draw)
        if lo is not None:
            U = r.rand(n, d)
            if style == 2:
                U = np.round(U * 4) / 4
            elif style == 3:
                U = np.clip(0.5 + 0.01 * r.randn(n, d), 0, 1)
            elif style == 4:
                U = np.where(r.rand(n, d) < 0.4, np.round(U), U)
            X = lo + U * (hi - lo)
        else:
            s = spread if spread is not None else 10.0 ** r.randint(-3, 5)
            if style in (0, 1):
                X = r.rand(n, d) * s
            elif style == 2:
                X = r.randn(n, d) * s
            elif style == 3:
                X = r.randint(-3, 4, size=(n, d)).astype(float)
            elif style == 4:
                X = np.round(r.randn(n, d) * s + r.randint(-50, 50, size=d), 3)
            else:
                X = r.randn(1, d) * s + 1e-2 * s * r.randn(n, d)
    if lo is not None:
        X = np.clip(X, lo, hi)
    if dup and n > 1 and chance(draw, 18):
        r = rnd(draw)
        k = r.randint(1, n)
        X[r.randint(0, n, size=k)] = X[r.randint(0, n)]
    return X.tolist()


def responses(draw, n, scale=True):
    """(n, 1) list: random, tied, constant, zero, monotone, spiky, scaled."""
    style = draw(st.integers(0, 7))
    if style == 0 and n <= 12:
        y = np.array(draw(st.lists(st.integers(-12, 12), min_size=n, max_size=n)), float) / 4.0
    else:
        r = rnd(draw)
        if style in (0, 1):
            y = r.randn(n)
        elif style == 2:
            y = r.randint(-2, 3, size=n).astype(float)
        elif style == 3:
            y = np.full(n, float(np.round(r.randn() * 3, 2)))
        elif style == 4:
            y = np.zeros(n)
        elif style == 5:
            y = np.sort(r.rand(n))[::(-1 if r.rand() < 0.5 else 1)] * 5
        elif style == 6:
            y = r.standard_t(1.5, size=n)
            y = np.clip(y, -50, 50)
        else:
            y = r.randn(n) * (10.0 ** r.randint(-4, 7) if scale else 2.0) + r.randint(-20, 20)
    return np.asarray(y, float).reshape(n, 1).tolist()


def nearly_tied(draw, Y, p=15):
    """Now and then replace values by values that differ in their last digits only."""
    if not chance(draw, p):
        return Y
    Y = np.array(Y, float)
    r = rnd(draw)
    base = pick(draw, 0.0, 1.0, -3.0, 1e6)
    eps = pick(draw, 1e-5, 1e-8, 1e-10, 1e-12, 1e-300) if base == 0.0 else \
        abs(base) * pick(draw, 1e-6, 1e-9, 1e-12, 2.3e-16)
    return (base + eps * r.randint(-9, 10, size=Y.shape)).tolist()


def lengthscales(draw, d, ard, lo=0.05, hi=50.0, signed=False):
    if not ard:
        v = positive(draw, lo, hi)
        return -v if signed and chance(draw, 10) else v
    if chance(draw, 25):
        out = [positive(draw, lo, hi)] * d
    else:
        out = [positive(draw, lo, hi) for _ in range(d)]
    if signed and chance(draw, 10):
        out[0] = -out[0]
    return out


def hyps(draw, d, ard=None, tp=False, noise=(1e-2, 1.0), signal=(0.1, 20.0), ls=(0.05, 50.0),
         signed=False, low_noise=None, neg_noise=False, extreme=False):
    if ard is None:
        ard = chance(draw, 65)
    if low_noise is not None and chance(draw, 20):
        h = {'noise': positive(draw, low_noise, noise[0])}
    else:
        h = {'noise': positive(draw, *noise)}
    if neg_noise and chance(draw, 8):
        h['noise'] = -h['noise']
    h['signal'] = positive(draw, *signal)
    if signed and chance(draw, 8):
        h['signal'] = -h['signal']
    h['lengthscales'] = lengthscales(draw, d, ard, ls[0], ls[1], signed)
    if extreme and chance(draw, 15):
        # what unbounded optimisers may try, and the ends of the documented ranges
        u = draw(st.integers(0, 9))
        if u < 6:
            h['signal'] = positive(draw, 20.0, 6000.0)
            h['noise'] = max(h['noise'], 1e-2) if h['noise'] > 0 else min(h['noise'], -1e-2)
        elif u < 8:
            h['noise'] = positive(draw, 2.0, 1000.0)
        else:
            h['lengthscales'] = lengthscales(draw, d, ard, 50.0, 1e3)
    if tp:
        h['dof'] = float(pick(draw, 5.0, 2.5, 2.01, 3.0, 4.0, 10.0, 30.0, 200.0, 7.25))
    return h


def np_hyps(h):
    out = {}
    for k, v in h.items():
        out[k] = np.array(v, float) if isinstance(v, list) else float(v)
    return out


PRIORS = ['none', 'zero', 'const', 'linear', 'quad', 'low']


def prior(draw, p_none=50):
    if chance(draw, 100 - p_none):
        return pick(draw, 'const', 'linear', 'quad', 'zero', 'low')
    return 'none'


@functools.lru_cache(None)
def prior_fn(name):
    if name == 'none':
        return None

    def f(X):
        Z = X.reshape(X.shape[0], -1).astype(float)
        if name == 'zero':
            return np.zeros((X.shape[0], 1))
        if name == 'const':
            return np.full((X.shape[0], 1), 2.5)
        if name == 'low':
            return np.full((X.shape[0], 1), -40.0) - 0.25 * Z[:, :1]
        if name == 'linear':
            return Z.mean(axis=1)[:, None] * 0.5 + 1.0
        return (np.tanh(Z).sum(axis=1) ** 2)[:, None]
    return f


def prior_vals(name, X):
    f = prior_fn(name)
    return np.zeros((X.shape[0], 1)) if f is None else f(X)


def ranges(draw, d, degenerate=True, wide=True):
    rows = []
    for _ in range(d):
        lo = pick(draw, 0.0, -1.0, -5.0, 1.0, 100.0, -100.0, 0.25, -0.001)
        w = pick(draw, 1.0, 10.0, 2.0, 0.1, *((1000.0, 0.001) if wide else ()))
        if degenerate and chance(draw, 4):
            w = 0.0
        rows.append([lo, lo + w])
    return rows


def A(x, dtype=float):
    return np.array(x, dtype=dtype)


def strat(fn):
    """Turn `def gen(draw): ...` into a zero-argument strategy factory."""
    comp = st.composite(fn)
    return lambda: comp()
