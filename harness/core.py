"""Runner for the property checks.

A property is a list of ``Sub`` (sub-checks).  Every sub-check has a Hypothesis strategy that produces a
JSON-serialisable *case* and a function ``check(case, ctx)`` that builds the inputs out of the case, drives the code
under test (imported from /repo) and raises ``Violation`` when an explicit oracle disagrees.

* every random choice comes out of Hypothesis, which is seeded from (VERIF_SEED, sub-check name, shard);
* case counts are fixed, so a run is a pure function of the code and the seed;
* a failure is shrunk by Hypothesis; the smallest failing case is written as a JSON replay file, and the replay
  driver (``run.py --replay FILE``) bypasses Hypothesis.
"""
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from multiprocessing.connection import wait as mp_wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HYPO_DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
CASE_CPU_LIMIT = 40.        # CPU seconds for a single case (typical cases take 1 to 100 ms)
SHRINK_LIMIT = 60.          # wall seconds spent on minimising
# Quick checks that last a few seconds only are given several rounds
QUICK_ROUNDS = dict(C01=2, C02=3, C03=3, C04=3, C06=2, C07=3, C11=2, C15=3, C16=4, C17=3, C18=2, C19=4, C20=4, C21=4,
                    C22=4, C25=3)
SOFT_LIMIT = {'quick': 420., 'thorough': 700.}    # no new task is started past this time
HARD_LIMIT = 840.


class Violation(AssertionError):
    """The property does not hold on the current case"""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)"""


class Reject(Exception):
    """The case lies out of the documented domain: counted, not checked"""


class Hang(BaseException):
    pass


class Abort(BaseException):
    pass


def harness(func):
    """Decorates generator / oracle functions: whatever they raise is an error of the harness"""
    def wrapped(*args, **kw):
        try:
            return func(*args, **kw)
        except (Reject, HarnessError, Violation):
            raise
        except Exception as exc:
            raise HarnessError('%s: %s\n%s' % (func.__name__, exc, traceback.format_exc()))
    wrapped.__name__ = func.__name__
    wrapped.__doc__ = func.__doc__
    return wrapped


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx(object):
    def __init__(self):
        self.labels = []
        self.nontriv = False

    def label(self, *names):
        for name in names:
            if name is not None:
                self.labels.append(str(name))

    def nontrivial(self, flag=True):
        if flag:
            self.nontriv = True


class Sub(object):
    """One sub-check: ``strategy`` is a zero-argument callable giving a Hypothesis strategy."""

    def __init__(self, name, strategy, check, quick=200, factor=12, rule='', seeds=(), shard=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.factor = factor
        self.rule = rule
        self.seeds = list(seeds)
        self.shard = shard


class Property(object):
    def __init__(self, pid, subs, rule, assumptions=(), level='exploration'):
        self.pid = pid
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level


# --------------------------------------------------------------------------------------------------------------------
# Environment
# --------------------------------------------------------------------------------------------------------------------

def reexec():
    """Pins the environment of the interpreter"""
    want = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
            'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        env = dict(os.environ)
        env.update(want)
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)


def setup_paths():
    import numpy, vtk, scipy.optimize, scipy.spatial, h5py      # noqa: the ones of the venv of the repository
    try:
        import hypothesis       # noqa
    except ImportError:
        if os.path.isdir(os.path.join(HYPO_DIR, 'hypothesis')):
            sys.path.append(HYPO_DIR)
        else:
            for wheel in sorted(os.listdir(WHEELS)):
                if wheel.startswith(('hypothesis-', 'sortedcontainers-', 'attrs-')):
                    sys.path.append(os.path.join(WHEELS, wheel))
        import hypothesis       # noqa


def import_sut(scratch):
    # a stale .pyc (matched by mtime and size only) must never be used
    sys.path.insert(0, REPO)
    os.makedirs(os.path.join(scratch, 'pyc'), exist_ok=True)
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    import meshmagick
    where = os.path.realpath(meshmagick.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('meshmagick imported from %s' % where)
    import meshmagick.mesh, meshmagick.mmio, meshmagick.hydrostatics, meshmagick.mesh_clipper    # noqa
    import meshmagick.inertia, meshmagick.rotations, meshmagick.tools, meshmagick.densities    # noqa
    import meshmagick.cli    # noqa


def load_property(pid):
    mod = importlib.import_module('props.' + pid.lower())
    return mod.PROPERTY


def dumps(case):
    return json.dumps(case, sort_keys=True)


def seed_of(seed, *names):
    h = hashlib.sha256(repr((seed,) + names).encode()).digest()
    return int.from_bytes(h[:8], 'big')


# --------------------------------------------------------------------------------------------------------------------
# One evaluation
# --------------------------------------------------------------------------------------------------------------------

def _on_alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def cpu_guard(seconds):
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def brief_tb(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    return ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in frames[::-1][:4])


def evaluate(sub, case, ctx):
    """Runs the check on a case. Raises Violation, HarnessError, Reject or returns."""
    case = json.loads(dumps(case))
    try:
        with cpu_guard(CASE_CPU_LIMIT):
            sub.check(case, ctx)
    except (Violation, HarnessError, Reject):
        raise
    except Hang:
        raise
    except MemoryError as exc:
        raise Violation('memory exhausted (%s)' % brief_tb(exc))
    except SystemExit as exc:
        raise Violation('unexpected SystemExit(%s) (%s)' % (exc.code, brief_tb(exc)))
    except Exception as exc:
        v = Violation('unexpected %s: %s (%s)' % (type(exc).__name__, str(exc)[:300], brief_tb(exc)))
        raise v.with_traceback(exc.__traceback__)


# --------------------------------------------------------------------------------------------------------------------
# Worker
# --------------------------------------------------------------------------------------------------------------------

def run_task(sub, seed, shard, count, cur_path, cases=None):
    """Explores ``count`` cases of a sub-check. Returns a dictionary."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    res = {'evaluations': 0, 'rejected': 0, 'labels': {}, 'hashes': [], 'samples': [], 'fail': None, 'error': None}
    hashes = set()
    fails = []
    t_fail = [None]

    def one(case):
        ctx = Ctx()
        text = dumps(case)
        with open(cur_path, 'w') as f:
            f.write(text)
        if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_LIMIT:
            raise Abort()
        try:
            evaluate(sub, case, ctx)
        except Reject as exc:
            res['rejected'] += 1
            lab = 'rejected:' + str(exc)
            res['labels'][lab] = res['labels'].get(lab, 0) + 1
            return
        except Violation as exc:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            fails.append((len(text), text, str(exc)))
            raise
        except Hang:
            fails.append((0, text, 'no answer within %g CPU seconds' % CASE_CPU_LIMIT))
            raise Abort()
        if t_fail[0] is None:
            res['evaluations'] += 1
            for lab in set(ctx.labels):
                res['labels'][lab] = res['labels'].get(lab, 0) + 1
            if ctx.nontriv:
                h = zlib.crc32(text.encode()) << 32 | zlib.adler32(text.encode())
                if h not in hashes:
                    hashes.add(h)
                    if len(res['samples']) < 2 and len(text) < 4000:
                        res['samples'].append(json.loads(text))

    try:
        if cases is not None:
            for case in cases:
                one(case)
        else:
            @hypothesis.seed(seed_of(seed, sub.name, shard))
            @settings(max_examples=count, deadline=None, database=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                      report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet)
            @given(sub.strategy())
            def test(case):
                one(case)
            test()
    except Violation:
        pass
    except Abort:
        pass
    except HarnessError as exc:
        res['error'] = str(exc)
    except BaseException as exc:    # Flaky, Unsatisfiable, errors of a strategy, ...
        if not fails:
            res['error'] = '%s: %s\n%s' % (type(exc).__name__, exc, traceback.format_exc())
    if fails and res['error'] is None:
        fails.sort()
        res['fail'] = {'case': json.loads(fails[0][1]), 'message': fails[0][2]}
    res['hashes'] = list(hashes)
    return res


def record_lines():
    """Development tool (VERIF_COV=directory): lines of meshmagick that are executed by the checks, see tools/lines.py"""
    mon, lines, marker = sys.monitoring, set(), os.sep + 'meshmagick' + os.sep

    def on_line(code, line):
        if marker in code.co_filename:
            lines.add((os.path.basename(code.co_filename), line))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, 'lines')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


def worker_main(conn, pid, sub, seed, shard, count, work, cases):
    try:
        os.makedirs(work, exist_ok=True)
        run_dir = os.path.join(work, 'cwd')
        os.makedirs(run_dir, exist_ok=True)
        os.chdir(run_dir)
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, 'w')
        sys.stderr = open(os.devnull, 'w')
        import warnings
        warnings.simplefilter('ignore')
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if os.environ.get('VERIF_COV'):
            lines = record_lines()
        res = run_task(sub, seed, shard, count, os.path.join(work, 'case.json'), cases)
        if os.environ.get('VERIF_COV'):
            with open(os.path.join(os.environ['VERIF_COV'], '%s-%s-%d' % (pid, sub.name, os.getpid())), 'w') as f:
                json.dump(sorted(lines), f)
    except BaseException as exc:
        res = {'error': 'worker: %s: %s\n%s' % (type(exc).__name__, exc, traceback.format_exc())}
    conn.send(res)
    conn.close()
    os._exit(0)


# --------------------------------------------------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------------------------------------------------

def known_findings(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == pid and e['status'] == 'known']


# --------------------------------------------------------------------------------------------------------------------
# Parent
# --------------------------------------------------------------------------------------------------------------------

def plan(prop, tier, scale):
    tasks = []
    for sub in prop.subs:
        cases = list(sub.seeds) + corpus(prop.pid, sub.name)
        if cases:
            tasks.append((sub, -1, len(cases), cases))
    rounds = {}
    for sub in prop.subs:
        total = sub.quick * (QUICK_ROUNDS.get(prop.pid, 1) if tier == 'quick' else sub.factor)
        total = max(1, int(total * scale))
        shard = sub.shard or max(1, -(-sub.quick // NPROC))
        nb = -(-total // shard)
        for i in range(nb):
            rounds.setdefault(i // NPROC, []).append((sub, i, min(shard, total - i * shard), None))
    for r in sorted(rounds):
        tasks.extend(rounds[r])
    return tasks


def corpus(pid, name):
    out = []
    d = os.path.join(VERIF, 'corpus', pid)
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.json'):
                with open(os.path.join(d, fn)) as f:
                    rep = json.load(f)
                if rep['sub'] == name:
                    out.append(rep['case'])
    return out


def write_replay(pid, sub_name, fail):
    d = os.environ.get('VERIF_REPLAYS') or os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    text = dumps({'property': pid, 'sub': sub_name, 'case': fail['case'], 'message': fail['message']})
    path = os.path.join(d, '%s-%s-%s.json' % (pid, sub_name, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def run_property(pid, tier, seed, only=None, scale=1.):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    main_pid = os.getpid()
    try:
        return _run_property(pid, tier, seed, only, scale, scratch, t0)
    finally:
        if os.getpid() == main_pid:
            shutil.rmtree(scratch, ignore_errors=True)


def _run_property(pid, tier, seed, only, scale, scratch, t0):
    setup_paths()
    import_sut(scratch)
    os.environ['VERIF_SCRATCH'] = scratch
    prop = load_property(pid)
    if only:
        prop.subs = [s for s in prop.subs if s.name in only]
    for entry in known_findings(pid):
        sub = [s for s in prop.subs if s.name == entry['sub']]
        if not sub:
            continue
        # the listed input, evaluated with the exclusion of the finding switched off
        res = spawn_one(pid, sub[0], entry['case'], os.path.join(scratch, 'known'))
        if res.get('error'):
            print('ERROR', res['error'])
            return 2
        if res['fail']:
            print('KNOWN-FINDING: property=%s %s' % (pid, entry['what']))
    sys.stdout.flush()

    tasks = plan(prop, tier, scale)
    running = {}
    totals = {s.name: {'evaluations': 0, 'rejected': 0, 'labels': {}, 'hashes': set(), 'samples': []}
              for s in prop.subs}
    failures, errors = [], []
    idx = 0
    skipped = 0
    while idx < len(tasks) or running:
        while idx < len(tasks) and len(running) < NPROC and not failures and not errors:
            if time.time() - t0 > SOFT_LIMIT[tier]:
                skipped += len(tasks) - idx
                idx = len(tasks)
                break
            sub, shard, count, cases = tasks[idx]
            parent, child = mp.Pipe(False)
            work = os.path.join(scratch, 't%d' % idx)
            proc = mp.get_context('fork').Process(target=worker_main,
                                                  args=(child, pid, sub, seed, shard, count, work, cases))
            proc.start()
            child.close()
            running[parent] = (proc, sub, work)
            idx += 1
        if failures or errors:
            # the other tasks are not needed any more
            for conn, (proc, sub, work) in list(running.items()):
                proc.kill()
                proc.join()
            break
        if not running:
            break
        ready = mp_wait(list(running), timeout=1.)
        if time.time() - t0 > HARD_LIMIT:
            for conn, (proc, sub, work) in list(running.items()):
                proc.kill()
                proc.join()
                skipped += 1
            break
        for conn in ready:
            proc, sub, work = running.pop(conn)
            try:
                res = conn.recv()
            except EOFError:
                res = None
            proc.join()
            if res is None:
                # the interpreter itself died: the case that was running is the reproduction
                try:
                    with open(os.path.join(work, 'case.json')) as f:
                        case = json.load(f)
                    if proc.exitcode == -signal.SIGKILL:
                        errors.append('worker of %s killed (out of memory?)' % sub.name)
                    else:
                        failures.append((sub, {'case': case, 'message': 'the interpreter died (exit code %s)'
                                                                        % proc.exitcode}))
                except Exception as exc:
                    errors.append('worker of %s died (%s): %s' % (sub.name, proc.exitcode, exc))
                continue
            if res.get('error'):
                errors.append('%s: %s' % (sub.name, res['error']))
                continue
            tot = totals[sub.name]
            tot['evaluations'] += res['evaluations']
            tot['rejected'] += res['rejected']
            tot['hashes'].update(res['hashes'])
            for k, v in res['labels'].items():
                tot['labels'][k] = tot['labels'].get(k, 0) + v
            if len(tot['samples']) < 2:
                tot['samples'].extend(res['samples'][:2 - len(tot['samples'])])
            if res['fail']:
                failures.append((sub, res['fail']))
            shutil.rmtree(work, ignore_errors=True)

    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in totals.values()),
            'distinct_nontrivial': sum(len(t['hashes']) for t in totals.values()),
            'rule': prop.rule,
            'samples': [{'sub': n, 'case': s} for n, t in totals.items() for s in t['samples'][:1]],
            'rejected': sum(t['rejected'] for t in totals.values()),
            'tasks_not_started': skipped,
            'sub_checks': {n: {'evaluations': t['evaluations'], 'distinct_nontrivial': len(t['hashes']),
                               'rejected': t['rejected'],
                               'labels': {k: t['labels'][k] for k in sorted(t['labels'])}}
                           for n, t in totals.items()},
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(failures),
    }
    if REPO == '/repo' and not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if failures:
        for sub, fail in failures[:1]:
            path = write_replay(pid, sub.name, fail)
            print('%s/%s: %s' % (pid, sub.name, fail['message']))
            print('case: %s' % dumps(fail['case'])[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors:
            print('ERROR %s' % e)
        return 2
    for n, t in totals.items():
        print('%s/%s: %d cases, %d distinct non-trivial, %d rejected' % (pid, n, t['evaluations'], len(t['hashes']),
                                                                         t['rejected']))
    if os.environ.get('VERIF_LABELS'):
        for n, t in totals.items():
            print(n, {k: t['labels'][k] for k in sorted(t['labels'])})
    print('%s held on %d cases (%.1f s)' % (pid, ev['coverage']['evaluations'], wall))
    return 0


def spawn_one(pid, sub, case, work):
    parent, child = mp.Pipe(False)
    proc = mp.get_context('fork').Process(target=worker_main, args=(child, pid, sub, 0, -1, 1, work, [case]))
    proc.start()
    child.close()
    try:
        res = parent.recv()
    except EOFError:
        res = {'fail': {'case': case, 'message': 'the interpreter died'}, 'error': None}
    proc.join()
    return res


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        setup_paths()
        import_sut(scratch)
        os.environ['VERIF_SCRATCH'] = scratch
        prop = load_property(rep['property'])
        sub = [s for s in prop.subs if s.name == rep['sub']][0]
        res = spawn_one(rep['property'], sub, rep['case'], os.path.join(scratch, 'w'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if res.get('error'):
        print('ERROR', res['error'])
        return 2
    if res['fail']:
        print('%s/%s: %s' % (rep['property'], rep['sub'], res['fail']['message']))
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    print('replay passes')
    return 0
