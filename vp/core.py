"""Check registry, Hypothesis driver, worker and parent runner."""
import contextlib
import hashlib
import importlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from vp import env

LEVEL = 'exploration'
N_WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
# Ceilings on the wall time of one check.  Reaching one is "inconclusive for
# the cases not reached" and never a violation.
TIER_SECONDS = {'quick': 60.0, 'thorough': 480.0}
KILL_SECONDS = {'quick': 600.0, 'thorough': 840.0}


class Violation(Exception):
    """The property does not hold for the case being executed."""


class Known(Exception):
    """A failure that matches an entry of the committed known-findings file."""

    def __init__(self, key, message=''):
        super().__init__(message)
        self.key = key


class Hang(Violation):
    """The code under test did not return; every case normally takes a few seconds at most."""


CASE_SECONDS = 90


@contextlib.contextmanager
def case_alarm():
    import signal

    def ring(signum, frame):
        raise Hang(f'no result after {CASE_SECONDS} s')
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(CASE_SECONDS)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Sub:
    """One executable check: a strategy of JSON-able cases plus a function."""

    def __init__(self, name, strategy, run, quick, thorough, nontrivial=None, rule=''):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.nontrivial = nontrivial
        self.rule = rule


class Prop:
    def __init__(self, pid, title, assumptions=()):
        self.pid = pid
        self.title = title
        self.assumptions = list(assumptions)
        self.subs = []

    def sub(self, strategy, quick, thorough, nontrivial=None, rule='', name=None):
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, strategy, fn, quick, thorough,
                                 nontrivial, rule))
            return fn
        return deco


def load(pid):
    mod = importlib.import_module(f'vp.props.{pid.lower()}')
    return mod.PROP


# --------------------------------------------------------------------------
# helpers used by the checks
# --------------------------------------------------------------------------
def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def call(fn, *args, **kwargs):
    """Call the code under test on a valid input: raising is a violation."""
    try:
        return fn(*args, **kwargs)
    except (Violation, Known, MemoryError):
        raise
    except Exception as exc:  # noqa: BLE001
        tb = traceback.extract_tb(exc.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[::-1][:4])
        name = getattr(fn, '__name__', str(fn))
        raise Violation(f'{name} raised {type(exc).__name__}: {exc} on a valid input ({where})') \
            from exc


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


@contextlib.contextmanager
def quiet_fds():
    """Silence output of native and third-party code (tqdm, cma, prints)."""
    sys.stdout.flush()
    sys.stderr.flush()
    save = (os.dup(1), os.dup(2))
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        yield
    finally:
        with contextlib.suppress(Exception):
            sys.stdout.flush()
            sys.stderr.flush()
        os.dup2(save[0], 1)
        os.dup2(save[1], 2)
        for fd in save + (null,):
            os.close(fd)


class Entropy:
    """Make unseeded generators a function of the case.

    bayeso draws unseeded points from np.random.RandomState() and from
    np.random.default_rng(None) (through scipy's quasi-Monte Carlo engines);
    forests and function draws use the global generator.  Fixing all three per
    case keeps every run a pure function of (code, case), which shrinking and
    replay need.  Seeded generators are passed through untouched.
    """

    def __init__(self, seed):
        self.seed = int(seed) % (2**31 - 1)

    def __enter__(self):
        import numpy as np
        self.np = np
        self.saved = (np.random.RandomState, np.random.default_rng, np.random.get_state())
        counter = [0]
        base = self.seed
        orig_rs, orig_rng, _ = self.saved

        def fresh():
            counter[0] += 1
            return (base * 7919 + counter[0]) % (2**31 - 1)

        class RandomState(orig_rs):
            def __init__(self, seed=None):
                super().__init__(fresh() if seed is None else seed)

        def default_rng(seed=None):
            return orig_rng(fresh() if seed is None else seed)

        np.random.RandomState = RandomState
        np.random.default_rng = default_rng
        np.random.seed(self.seed)
        return self

    def __exit__(self, *exc):
        np = self.np
        np.random.RandomState, np.random.default_rng = self.saved[0], self.saved[1]
        np.random.set_state(self.saved[2])
        return False


def execute(sub, case):
    """Run one case as a pure function of the code and the case."""
    import warnings
    import numpy as np
    seed = int(case_key(case)[:8], 16)
    cwd = os.getcwd()
    with case_alarm(), Entropy(seed), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            return sub.run(case)
        except (Violation, Known, MemoryError, ImportError, KeyboardInterrupt):
            raise
        except Exception as exc:
            # the oracle could not even interpret what the code under test returned
            tb = traceback.extract_tb(exc.__traceback__)
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[::-1][:4])
            raise Violation(f'unexpected {type(exc).__name__}: {exc} ({where})') from exc
        finally:
            os.chdir(cwd)


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.trivial = set()
        self.labels = {}
        self.samples = []
        self.known = {}


def _is_nontrivial(sub, case, info):
    if isinstance(info, dict) and 'nontrivial' in info:
        return bool(info['nontrivial'])
    if sub.nontrivial is not None:
        return bool(sub.nontrivial(case))
    return True


def run_sub(sub, seed, n_examples, deadline):
    """Drive one sub-check with Hypothesis; returns (Stats, failure or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25
    # The generators build ties, repeats and aliasing on purpose, so the engine's
    # block-duplicating mutations mostly regenerate cases that were already run.
    if hasattr(engine.ConjectureRunner, 'generate_mutations_from'):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None

    stats = Stats()
    box = {}

    def body(case):
        if time.monotonic() > deadline and 'case' not in box:
            stats.skipped += 1
            return
        key = case_key(case)
        if 'hang' in box:
            # do not shrink a hang: every attempt would cost the full time limit
            if key == box['hang']:
                raise Hang(box['message'])
            return
        if key in stats.nontrivial or key in stats.trivial:
            return
        stats.evaluations += 1
        try:
            info = execute(sub, case)
        except Known as exc:
            stats.known.setdefault(exc.key, (str(exc), case))
            info = None
        except Violation as exc:
            box['case'] = case
            box['message'] = str(exc)
            if isinstance(exc, Hang):
                box['hang'] = key
            raise
        if _is_nontrivial(sub, case, info):
            stats.nontrivial.add(key)
            if len(stats.samples) < 3:
                stats.samples.append(case)
        else:
            stats.trivial.add(key)
        if isinstance(info, dict):
            for lab in info.get('labels', ()):
                stats.labels[lab] = stats.labels.get(lab, 0) + 1

    done = 0
    chunk_index = 0
    while done < n_examples and time.monotonic() < deadline:
        chunk = min(n_examples - done, 200)
        # chunk seeds are disjoint from one another and from other workers'
        cseed = (seed * 1000003 + chunk_index * 7 + len(sub.name)) % (2**63)
        test = given(sub.strategy())(body)
        test = hypothesis.seed(cseed)(test)
        test = settings(
            max_examples=chunk, database=None, deadline=None,
            derandomize=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            print_blob=False)(test)
        try:
            test()
        except Violation:
            pass
        except hypothesis.errors.HypothesisException:
            if 'case' not in box:
                raise
        except BaseExceptionGroup:
            if 'case' not in box:
                raise
        if 'case' in box:
            return stats, finish_failure(sub, box)
        done += chunk
        chunk_index += 1
    return stats, None


def finish_failure(sub, box):
    """Re-execute the minimal case outside the library."""
    hits = 0
    message = box['message']
    if 'hang' in box:
        return {'sub': sub.name, 'case': box['case'], 'message': message, 'reproduced': '1/1'}
    for _ in range(3):
        try:
            execute(sub, box['case'])
        except Violation as exc:
            hits += 1
            message = str(exc)
        except Known:
            pass
    return {'sub': sub.name, 'case': box['case'], 'message': message,
            'reproduced': f'{hits}/3'}


def worker_main(argv):
    pid, tier, seed, shard, n_shards, out, seconds = argv
    seed, shard, n_shards = int(seed), int(shard), int(n_shards)
    env.setup_path()
    sys.path.insert(1, env.VERIF)
    scratch = tempfile.mkdtemp(prefix='vp_')
    os.environ['MPLCONFIGDIR'] = scratch
    os.chdir(scratch)
    result = {'subs': {}, 'failure': None, 'error': None}
    try:
        env.check_import()
        import logging
        logging.raiseExceptions = False
        prop = load(pid)
        t0 = time.monotonic()
        total = float(seconds)
        only = os.environ.get('VERIF_ONLY_SUB')
        subs = [s for s in prop.subs if not only or s.name in only.split(',')]
        for k, sub in enumerate(subs):
            n = sub.quick if tier == 'quick' else sub.thorough
            n = n // n_shards + (1 if shard < n % n_shards else 0)
            if n == 0:
                continue
            now = time.monotonic()
            left = total - (now - t0)
            # a sub-check may use what is left, but leaves its share to the rest
            deadline = now + max(2.0, left * 2.0 / (len(subs) - k + 1))
            t1 = time.monotonic()
            with quiet_fds():
                stats, failure = run_sub(sub, seed * 4096 + shard, n, deadline)
            result['subs'][sub.name] = {
                'evaluations': stats.evaluations, 'skipped': stats.skipped,
                'nontrivial': sorted(stats.nontrivial), 'trivial': len(stats.trivial),
                'labels': stats.labels, 'samples': stats.samples[:2],
                'known': stats.known, 'wall': time.monotonic() - t1, 'planned': n,
            }
            if failure is not None:
                result['failure'] = failure
                break
    except BaseException:  # noqa: BLE001
        result['error'] = traceback.format_exc()
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out, 'w') as f:
        json.dump(result, f)


# --------------------------------------------------------------------------
# parent
# --------------------------------------------------------------------------
def load_known(pid):
    path = os.path.join(env.VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data['findings'] if e['property'] == pid}


def selftest():
    """Everything a check needs is importable; every check has cases to run."""
    env.setup_path()
    env.check_import()
    import hypothesis
    pids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(env.VERIF, 'vp', 'props'))
                  if f.startswith('c') and f.endswith('.py'))
    for pid in pids:
        prop = load(pid)
        assert prop.pid == pid and prop.subs
    print(f'{len(pids)} checks, hypothesis {hypothesis.__version__}, bayeso from {env.REPO}')
    return 0


def run_check(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    env.setup_path()
    prop = load(pid)
    known = load_known(pid)
    work = tempfile.mkdtemp(prefix='vpc_')
    procs = []
    try:
        for shard in range(N_WORKERS):
            out = os.path.join(work, f'{shard}.json')
            err = open(os.path.join(work, f'{shard}.err'), 'w')
            cmd = [sys.executable, os.path.join(env.VERIF, 'check.py'), '--worker', pid, tier,
                   str(seed), str(shard), str(N_WORKERS), out, str(TIER_SECONDS[tier])]
            procs.append((subprocess.Popen(cmd, env=env.child_environment(), stdout=err,
                                           stderr=err, cwd=work, start_new_session=True),
                          out, err))
        results, errors, killed = [], [], 0
        for p, out, err in procs:
            left = KILL_SECONDS[tier] - (time.monotonic() - t0)
            try:
                p.wait(timeout=max(1.0, left))
            except subprocess.TimeoutExpired:
                killed += 1
            kill_group(p)
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            elif p.returncode not in (None, 0) and p.returncode != -9:
                with open(err.name) as f:
                    errors.append(f'worker exited {p.returncode}: ' + f.read()[-2000:])
    finally:
        for p, _, _ in procs:
            kill_group(p)
        shutil.rmtree(work, ignore_errors=True)

    failures = [r['failure'] for r in results if r['failure']]
    errors += [r['error'] for r in results if r['error']]
    seen_known = {}
    per_sub, samples, distinct, evaluations = {}, [], set(), 0
    for r in results:
        for name, s in r['subs'].items():
            agg = per_sub.setdefault(name, {'evaluations': 0, 'planned': 0, 'skipped_by_time': 0,
                                            'nontrivial': set(), 'trivial': 0, 'labels': {}})
            agg['evaluations'] += s['evaluations']
            agg['planned'] += s['planned']
            agg['skipped_by_time'] += s['skipped']
            agg['nontrivial'].update(s['nontrivial'])
            agg['trivial'] += s['trivial']
            for k, v in s['labels'].items():
                agg['labels'][k] = agg['labels'].get(k, 0) + v
            evaluations += s['evaluations']
            distinct.update(f'{name}:{h}' for h in s['nontrivial'])
            for c in s['samples']:
                if sum(1 for x in samples if x['check'] == name) < 2:
                    samples.append({'check': name, 'case': shorten(c)})
            for key, (msg, case) in s['known'].items():
                seen_known.setdefault(key, (name, msg, case))
    # a failure tagged with a key that is not listed is a plain violation
    for key, (name, msg, case) in list(seen_known.items()):
        if key not in known:
            failures.append({'sub': name, 'case': case, 'message': f'{key}: {msg}',
                             'reproduced': '1/1'})
            del seen_known[key]

    rules = {s.name: s.rule for s in prop.subs}
    for name, agg in per_sub.items():
        agg['distinct_nontrivial'] = len(agg.pop('nontrivial'))
        agg['rule'] = rules.get(name, '')
    code = 0
    violations = []
    if failures:
        code = 1
        best = min(failures, key=lambda f: len(json.dumps(f['case'])))
        path = write_replay(pid, best)
        violations.append({'check': best['sub'], 'message': best['message'], 'replay': path,
                           'reproduced': best['reproduced']})
        print(f"{pid}: check '{best['sub']}' failed: {best['message']} "
              f"(reproduced {best['reproduced']})")
        print(f'VIOLATION property={pid} replay={path}')
    elif errors:
        code = 2
        print('HARNESS ERROR\n' + errors[0], file=sys.stderr)
    elif evaluations == 0:
        code = 2
        print('HARNESS ERROR: nothing was executed', file=sys.stderr)
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[key]['what']}")
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': '; '.join(f'{n}: {r}' for n, r in rules.items() if r),
            'samples': samples[:12],
            'checks': per_sub,
            'workers_stopped_by_time': killed,
            'known_findings_seen': sorted(seen_known),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': violations,
    }
    write_evidence(pid, evidence)
    print(f'{pid} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, '
          f'{evidence["wall_s"]} s, exit {code}')
    return code


def kill_group(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    with contextlib.suppress(Exception):
        p.wait(timeout=5)


def shorten(obj, limit=600):
    text = json.dumps(obj)
    return obj if len(text) <= limit else text[:limit] + '...'


def write_evidence(pid, evidence):
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)


def write_replay(pid, failure):
    d = os.path.join(env.VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = case_key(failure['case'])[:10]
    path = os.path.join(d, f"{pid}-{failure['sub']}-{h}.json")
    with open(path, 'w') as f:
        json.dump({'property': pid, 'check': failure['sub'], 'case': failure['case'],
                   'message': failure['message']}, f, indent=1)
    return path


def run_replay(path):
    with open(path) as f:
        rec = json.load(f)
    env.setup_path()
    scratch = tempfile.mkdtemp(prefix='vp_')
    os.environ.update(MPLBACKEND='Agg', MPLCONFIGDIR=scratch)
    env.check_import()
    prop = load(rec['property'])
    sub = next(s for s in prop.subs if s.name == rec['check'])
    os.chdir(scratch)
    try:
        outcome = None
        with quiet_fds():
            try:
                execute(sub, rec['case'])
            except Known as exc:
                outcome = ('known', str(exc))
            except Violation as exc:
                outcome = ('violation', str(exc))
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    if outcome is None:
        print('replay: the property held on this case')
        return 0
    print(f'replay: {outcome[1]}')
    if outcome[0] == 'known':
        return 0
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1
