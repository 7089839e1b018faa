"""Environment set-up shared by the parent process and the workers.

The code under test is always imported from VERIF_REPO (default /repo), never
from an installed copy.  Hypothesis is taken from the tooling venv, appended
at the *end* of sys.path so that numpy, scipy, cma and matplotlib come from the
interpreter that runs the repository's own tests.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'


def child_environment():
    env = dict(os.environ)
    env.update({
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0',
        'MPLBACKEND': 'Agg',
        'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1',
    })
    env.pop('PYTHONPATH', None)
    return env


def setup_path():
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if os.path.isdir(TOOL_SITE):
            sys.path.append(TOOL_SITE)
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            for name in sorted(os.listdir(WHEELS)):
                if name.startswith(('hypothesis-', 'sortedcontainers-', 'attrs-')):
                    sys.path.append(os.path.join(WHEELS, name))
            import hypothesis  # noqa: F401


def check_import():
    import bayeso
    where = os.path.realpath(os.path.dirname(bayeso.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'bayeso')):
        raise RuntimeError(f'bayeso imported from {where}, expected {REPO}/bayeso')
