"""C25: log messages are emitted once and numbers are rendered faithfully."""
import io
import itertools
import logging
import re
import sys

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp.core import Known, Prop, call, ensure

PROP = Prop('C25', 'Log output is emitted once and renders arrays faithfully', [
    'The application has not configured handlers of its own on the root logger.',
    'Arrays are floating-point or integer arrays of any width.',
])
COUNT = itertools.count()


@g.strat
def gen_arr(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    if g.chance(draw, 10):
        shape[draw(st.integers(0, nd - 1))] = g.pick(draw, 0, 7, 12)
    size = int(np.prod(shape))
    ints = g.chance(draw, 25)
    if g.chance(draw, 4):
        # long rows, many rows, many blocks
        shape = [1] * nd
        shape[draw(st.integers(0, nd - 1))] = g.pick(draw, 65, 101, 300, 1001, 1200)
        size = int(np.prod(shape))
        r = g.rnd(draw)
        vals = r.randint(-9999, 9999, size=size)
        vals = vals.tolist() if ints else (vals / 8.0).tolist()
    elif ints:
        vals = draw(st.lists(st.one_of(st.integers(-10**6, 10**6), st.integers(-10**15, 10**15),
                                        st.integers(-2**63, 2**63 - 1)), min_size=size, max_size=size))
    else:
        vals = draw(st.lists(st.one_of(
            st.floats(-1e6, 1e6, allow_nan=False), st.floats(-1, 1),
            st.sampled_from([0.0, -0.0, 1e-4, -1e-4, 0.0005, 2.5e-3, 1e15, -123456.7895, 5e-324, 1e300, float('inf'), float('-inf'), float('nan')]),
            st.integers(-5, 5).map(float)), min_size=size, max_size=size))
    kind = None
    if g.chance(draw, 25):
        kind = g.pick(draw, *(('int8', 'int16', 'int32', 'uint8', 'uint32', 'uint64') if ints else
                              ('float16', 'float32', 'float32', 'longdouble')))
    return {'shape': shape, 'vals': vals, 'ints': ints, 'kind': kind}


def render(a):
    if a.ndim == 0:
        return str(int(a)) if a.dtype.kind in 'iu' else '%.3f' % float(a)
    return '[' + (', ' if a.ndim == 1 else ',\n').join(render(np.asarray(x)) for x in a) + ']'


def array_of(c):
    a = np.array(c['vals'], dtype=np.int64 if c['ints'] else float).reshape(c['shape'])
    return a.astype(c['kind']) if c.get('kind') else a


@PROP.sub(gen_arr, 8000, 80000, lambda c: len(c['vals']) > 1, 'more than one number')
def arrays(c):
    from bayeso.utils import utils_logger as ul
    a = array_of(c)
    got = call(ul.get_str_array, a)
    ensure(isinstance(got, str), 'not text: %r', got)
    ensure(got == render(a), 'rendered as %r, expected %r', got, render(a))
    fn = {1: ul.get_str_array_1d, 2: ul.get_str_array_2d, 3: ul.get_str_array_3d}[a.ndim]
    ensure(call(fn, a) == got, 'the rank-specific rendering differs')
    if a.dtype.kind == 'f' and not np.all(np.abs(a.astype(float)) < 1e20):
        return {'labels': ['not finite or huge']}
    # reading the numbers back
    nums = [float(t) for t in re.findall(r'-?\d+(?:\.\d+)?', got)]
    ensure(len(nums) == a.size, '%d numbers printed for %d elements', len(nums), a.size)
    if a.size:
        b = a.ravel().astype(float)
        err = np.abs(np.array(nums) - b)
        ensure(bool(np.all(err <= 0.0005 + 1e-12 + 1e-12 * np.abs(b))),
               'printed numbers differ by %g', float(err.max()))
    ensure(got.count('[') == got.count(']'), 'unbalanced brackets')


@g.strat
def gen_dict(draw):
    keys = draw(st.lists(st.sampled_from(['noise', 'signal', 'lengthscales', 'dof', 'k', 'x_1']),
                         min_size=1, max_size=5, unique=True))
    items = []
    for k in keys:
        t = g.pick(draw, 'float', 'float', 'array', 'int', 'str', 'float32')
        if t in ('float', 'float32'):
            v = draw(st.floats(-1e4, 1e4, allow_nan=False))
        elif t == 'int':
            v = draw(st.integers(-1000, 1000))
        elif t == 'str':
            v = g.pick(draw, 'gp', 'none')
        else:
            v = [float(x) for x in draw(st.lists(st.floats(-100, 100), min_size=1, max_size=4))]
        items.append([k, t, v])
    return {'items': items}


@PROP.sub(gen_dict, 3000, 30000, lambda c: len(c['items']) > 1, 'more than one entry')
def dictionaries(c):
    from bayeso.utils import utils_logger as ul
    h, want = {}, []
    for k, t, v in c['items']:
        h[k] = np.array(v) if t == 'array' else np.float32(v) if t == 'float32' else v
        want.append("'%s': %s" % (k, render(h[k]) if t == 'array' else
                                  '%.3f' % float(h[k]) if t[:5] == 'float' else str(v)))
    got = call(ul.get_str_hyps, h)
    ensure(got == '{' + ', '.join(want) + '}', 'rendered as %r', got)


@g.strat
def gen_log(draw):
    names = draw(st.lists(st.sampled_from(['a', 'b', 'gp', 'bo_x', 'a.5', 'lr0.1', 'a.5.x', '.']), min_size=1, max_size=3,
                          unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        op = g.pick(draw, 'get', 'get', 'log', 'gp', 'tp', 'rf', 'wrapper gp', 'wrapper tp',
                    'wrapper rf')
        ops.append([op, g.pick(draw, *names), g.pick(draw, 'debug', 'info', 'warning', 'error'),
                    draw(st.text('abc XYZ-09[]', min_size=1, max_size=8))])
    for n in names:
        ops.append(['log', n, 'debug', 'end'])
    return {'ops': ops}


LINE = r'\[%s-%s-\d{2}/\d{2}/\d{4}-\d{2}:\d{2}:\d{2}\] %s'


@PROP.sub(gen_log, 2500, 20000, lambda c: len(c['ops']) > 3, 'several logger operations')
def emitted_once(c):
    """A message appears once, with its level and name, however often loggers are obtained."""
    from bayeso import bo
    from bayeso.utils import utils_logger as ul
    from bayeso.wrappers import BayesianOptimization
    R = np.array([[0.0, 1.0]])
    tag = 'vp%d' % next(COUNT)
    buf = io.StringIO()
    saved = sys.stderr
    sys.stderr = buf
    made, repeated = {}, None
    try:
        for op, name, level, text in c['ops']:
            if op not in ('get', 'log'):
                kind = op.split()[-1]
                if op == kind:
                    cls = {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': bo.BOwTrees}[kind]
                    m = call(cls, R, str_exp=tag + name)
                else:
                    more = {'str_optimizer_method_bo': 'random_search'} if kind == 'rf' else {}
                    m = call(BayesianOptimization, R, lambda x: 0.0, 1, str_surrogate=kind,
                             str_exp=tag + name, **more).model_bo
                lg = m.logger
                full = 'bo_w_%s_%s' % (kind, tag + name)
            else:
                full = tag + name
                lg = call(ul.get_logger, full)
            made[full] = lg
            ensure(isinstance(lg, logging.Logger), 'not a logger: %r', lg)
            ensure(lg.name == full, 'logger is named %r, expected %r', lg.name, full)
            if op == 'get':
                continue
            start = len(buf.getvalue())
            getattr(lg, level)('%s', text)
            new = buf.getvalue()[start:]
            line = LINE % (level.upper(), re.escape(full), re.escape(text)) + '\n'
            above = [k for k in made if full.startswith(k + '.')]
            if above and re.fullmatch('(?:%s){%d}' % (line, 1 + len(above)), new) is not None:
                repeated = (full, above)
                continue
            ensure(re.fullmatch(line, new) is not None,
                   'one %s message %r produced %r', level, text, new)
    finally:
        sys.stderr = saved
        for lg in made.values():
            for h in list(lg.handlers):
                lg.removeHandler(h)
        for full in [k for k in logging.Logger.manager.loggerDict if tag in k]:
            logging.Logger.manager.loggerDict.pop(full, None)
    if repeated is not None:
        raise Known('dotted-logger-name', 'a message of %r is also written by the handler of %s' %
                    repeated)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.seen = []

    def emit(self, record):
        self.seen.append((record.levelname, record.getMessage(), record.name))


def settings(c):
    """What a seeded run announces: the settings it was given."""
    h = {'range_X': render(g.A(c['range'])), 'num_init': len(c['X']), 'num_iter': c['num_iter'],
         'str_acq': c['acq'], 'str_initial_method_bo': c['init'], 'num_samples_ao': c['num'],
         'str_sampling_method_ao': c['sampling'], 'seed': c['seed']}
    if c['kind'] != 'rf':
        h.update(str_cov=c['cov'], str_optimizer_method_bo=c['opt'])
    if c['kind'] == 'gp':
        h.update(str_optimizer_method_gp=c['fit'], str_mlm_method=c['mlm'],
                 str_modelselection_method=c['crit'])
    if c['wrapper'] == 'class':
        h.update(str_surrogate=c['kind'], normalize_Y=c['norm'], debug=bool(c.get('debug')))
        if c['kind'] == 'tp':
            h['str_optimizer_method_tp'] = c['fit']
        if c['kind'] != 'rf':
            h['use_ard'] = c['ard']
    return {k: str(v) for k, v in h.items()}


@g.strat
def gen_run(draw):
    from vp.props import c15
    c = draw(c15.gen_long())
    c['num_iter'] = g.size(draw, 4, 20, 150)
    c['rounds'] = draw(st.integers(1, 2))
    c['debug'] = g.chance(draw, 30)
    return c


@PROP.sub(gen_run, 600, 8000, lambda c: c['num_iter'] > 1, 'several iterations')
def announced(c):
    """A run announces every iteration once, in order, on the logger of its optimiser."""
    from vp.props import c15
    R = g.A(c['range'])
    obj = c15.Objective(c)
    b, model = c15.build(c, obj, R.copy())
    model.optimize = c15.scripted(c, R)
    cap = Capture()
    model.logger.addHandler(cap)
    try:
        for _ in range(c['rounds']):
            del cap.seen[:]
            X0 = g.A(c['X'])
            c15.run(c, b, model, obj, X0.copy(), np.array([[obj.value(x)] for x in X0]))
            info = [text for level, text, _ in cap.seen if level == 'INFO']
            got = [text for text in info if text.startswith('Iteration')]
            want = ['Iteration %d' % (k + 1) for k in range(c['num_iter'])]
            ensure(got == want, 'announced %s, expected %d iterations', got, c['num_iter'])
            if c['entry'] == 'seeded':
                for key, v in settings(c).items():
                    got = [t.split(':', 1)[1].lstrip(' \n') for t in info
                           if t.split(':', 1)[0] == key]
                    if key == 'str_optimizer_method_bo' and got == ['L-BFGS-B']:
                        # DIRECT is not installed, and CMA-ES needs two dimensions
                        continue
                    ensure(got == [v], 'setting %s announced as %s, given %r', key, got, v)
            ensure(all(name == model.logger.name for _, _, name in cap.seen),
                   'a message under another name')
            ensure(c['debug'] or len(cap.seen) == len(info), 'debug output although it is off: %s',
                   cap.seen)
    finally:
        model.logger.removeHandler(cap)
    return {'labels': [c['kind'], c['wrapper'], c['entry']]}
