"""C32: results depend on the values of array arguments, not on how they are stored."""
import numpy as np

from vp import gens as g
from vp.core import Entropy, Prop, call, ensure
from vp.props import c22

PROP = Prop('C32', 'Results depend on the values of arrays, not on how they are stored', [
    'Routines that fit hyperparameters amplify last-digit differences, so for them equality of '
    'values is only required for read-only storage; for the other storages they must succeed '
    'with results of the same shapes.',
])
DTYPES = ['int64', 'int64', 'int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'uint64']
STORES = ['readonly', 'fortran', 'strided', 'reversed', 'int', 'int']
INTS = ('X', 'Y', 'T', 'R', 'S', 'runs')
OPS = [o for o in c22.OPS if o not in ('text', 'step_gp_conv')]
FIT = {'gp_fit', 'tp_fit', 'gp_opt', 'step_gp', 'step_tp', 'loop', 'thompson'}


@g.strat
def gen(draw):
    c = draw(c22.gen())
    c['store'] = g.pick(draw, *STORES)
    if c['store'] == 'int':
        # integers of any width; wide spreads use more than half of the type's values
        c['dtype'] = g.pick(draw, *DTYPES)
        c['spread'] = c['dtype'] != 'int64' and g.chance(draw, 60)
        info = np.iinfo(c['dtype'])
        top = min(float(info.max), 1e9) * 0.9
        R = g.A(c['range'])
        if c['spread']:
            f = top / max(1e-9, np.max(np.abs(R)))
            R = R * f
            for k in ('X', 'T'):
                c[k] = (g.A(c[k]) * f).tolist()
            y = g.A(c['Y'])
            c['Y'] = (y * (top / max(1e-9, np.max(np.abs(y))))).tolist()
        if info.min == 0:
            low = R[:, 0].copy()
            R = R - np.minimum(low, 0.0)[:, None]
            for k in ('X', 'T'):
                c[k] = (g.A(c[k]) - np.minimum(low, 0.0)).tolist()
            c['Y'] = (g.A(c['Y']) - min(0.0, np.min(g.A(c['Y'])))).tolist()
        R = np.round(R)
        R[:, 1] = np.maximum(R[:, 1], R[:, 0] + 1)
        c['range'] = R.tolist()
        for k in ('X', 'T'):
            c[k] = np.clip(np.round(g.A(c[k])), R[:, 0], R[:, 1]).tolist()
        c['Y'] = np.round(g.A(c['Y']) * 2).tolist()
    ops = []
    for _ in range(3):
        op = g.pick(draw, *OPS)
        if op in FIT and (c.get('spread') or g.chance(draw, 50)):
            op = g.pick(draw, *[o for o in OPS if o not in FIT])
        ops.append(op)
    c['ops'], c['order'] = ops, 'C'
    return c


def plain(c):
    def f(k, v):
        return np.round(v) if c['store'] == 'int' and k in INTS else v
    return f


def stored(c):
    base = plain(c)

    def f(k, v):
        v = base(k, v)
        s = c['store']
        if s == 'int':
            if k not in INTS:
                return v
            info = np.iinfo(c['dtype'])
            fits = float(info.min) <= np.min(v) and np.max(v) <= float(info.max)
            return v.astype(c['dtype'] if fits else int)
        if s == 'fortran':
            return np.asfortranarray(v)
        if s == 'strided':
            big = np.full(tuple(2 * n for n in v.shape), 7.5)
            view = big[tuple(slice(None, None, 2) for _ in v.shape)]
            view[...] = v
            return view
        if s == 'reversed':
            flip = tuple(slice(None, None, -1) for _ in v.shape)
            return v[flip].copy()[flip]
        v = v.copy()
        v.flags.writeable = False
        return v
    return f


def alike(a, b, tol):
    """Same structure and values (dtype aside); tol None compares shapes only."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, bool)) or a is None:
        return tol is None or a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype == object or y.dtype == object:
        return True
    if x.shape != y.shape:
        return False
    if tol is None:
        return True
    x, y = x.astype(float), y.astype(float)
    big = np.max(np.abs(x[np.isfinite(x)]), initial=0.0)
    return bool(np.allclose(x, y, rtol=0, atol=tol * (big + 1e-12), equal_nan=True))


@PROP.sub(gen, 2200, 30000, lambda c: len(c['X']) > 2, 'at least three observations')
def storage(c):
    W, V = c22.World(c, store=plain(c)), c22.World(c, store=stored(c))
    for op in c['ops']:
        outs = []
        for w in (W, V):
            with Entropy(c['e']):
                res = c22.no_times(w.run(op))
            outs.append(tuple(res)[:2] if op == 'loop' else res)
        exact = c['store'] == 'readonly'
        tol = 0.0 if exact else (None if op in FIT | {'step_rf'} else 1e-6)
        ensure(alike(outs[0], outs[1], tol), '%s depends on the storage (%s) of its arguments',
               op, c['store'])
    return {'labels': [c['store'] if c['store'] != 'int' else c['dtype']] + c['ops'][:2]}
