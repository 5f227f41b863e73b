"""Engine shared by all checks: deterministic case scheduling over worker
processes, verdict discipline, replay files, evidence and known findings.

A check module (vf/checks/<id>.py) provides

    RULE      how cases are made, what makes one non-trivial
    PLAN      {'quick': n_cases, 'thorough': n_cases}
    run_case(ctx) -> None     # runs real code, calls ctx.violation / ctx.event / ...

Verdicts: exit 0 held, exit 1 violated (VIOLATION line), exit 2 inconclusive or
harness error (monitor not reached, oracle crashed).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')  # another tree only while developing (tools/mutate.py)
EVIDENCE_DIR = os.environ.get('VF_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN_FINDINGS_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.json')

# cases take milliseconds to a few seconds of processor time
CASE_CPU_S = 150
CASE_WALL_S = 420


class CaseTimeout(BaseException):
    pass


class CaseStuck(BaseException):
    pass


class Inconclusive(Exception):
    pass


def _on_cpu_alarm(signum, frame):
    raise CaseTimeout()


def _on_alarm(signum, frame):
    raise CaseStuck()


class Ctx:
    """One case: its PRNG, its scratch directory and what the monitors saw."""

    def __init__(self, prop, seed, tier, index, scratch):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.index = index
        self.scratch = scratch
        self.rng = random.Random('%s/%s/%s' % (prop, seed, index))
        self.violations = []
        self.events = collections.Counter()
        self.nontrivial = False
        self.key_parts = []
        self.sample = None
        self._dirs = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def new_dir(self, name='d'):
        self._dirs += 1
        path = os.path.join(self.scratch, '%s%d' % (name, self._dirs))
        os.makedirs(path)
        return path

    def event(self, name, n=1):
        if n:
            self.events[name] += n

    def distinct(self, *parts):
        """Register what makes this case distinct; calling it marks it non-trivial."""
        self.nontrivial = True
        self.key_parts.append(repr(parts))

    def violation(self, kind, **detail):
        self.violations.append({'kind': kind, 'detail': {
            k: _short(v) for k, v in detail.items()
        }})

    def require(self, cond, kind, **detail):
        self.event('assertions')
        if not cond:
            self.violation(kind, **detail)
        return cond


def _short(v, limit=6000):
    if isinstance(v, bytes):
        v = v.decode('utf-8', 'backslashreplace')
    if isinstance(v, (dict, list, tuple, set)):
        v = repr(v)
    if isinstance(v, str) and len(v) > limit:
        return v[:limit] + '...[%d chars]' % len(v)
    return v


def _raised_by_code_under_test(exc):
    """the workload is valid input, so an error from inside the code is one of the code"""
    files = [frame.filename for frame in traceback.extract_tb(exc.__traceback__)]
    own = os.path.dirname(os.path.abspath(__file__))
    package = os.path.join(REPO, 'sciencebeam_trainer_grobid_tools') + os.sep
    return any(f.startswith(package) for f in files) and not files[-1].startswith(own + os.sep)


def run_one(module, prop, seed, tier, index, scratch_base):
    scratch = tempfile.mkdtemp(prefix='case-%d-' % index, dir=scratch_base)
    ctx = Ctx(prop, seed, tier, index, scratch)
    harness_error = None
    old_tmp = tempfile.tempdir
    tempfile.tempdir = None
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_cpu_alarm)
    signal.alarm(CASE_WALL_S)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        module.run_case(ctx)
    except CaseTimeout:
        # processor time, hence independent of the load of the machine, and
        # orders of magnitude above the usual cost of a case
        ctx.violation('no-progress', note='case used %ss of processor time without an end' % CASE_CPU_S)
    except CaseStuck:
        harness_error = 'case did not finish within %ss of wall time' % CASE_WALL_S
    except Exception as exc:  # pylint: disable=broad-except
        if _raised_by_code_under_test(exc):
            ctx.violation('unexpected-error', error=repr(exc), traceback=traceback.format_exc())
        else:
            harness_error = traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        tempfile.tempdir = old_tmp
        shutil.rmtree(scratch, ignore_errors=True)
    return {
        'index': index,
        'violations': ctx.violations,
        'events': dict(ctx.events),
        'nontrivial': ctx.nontrivial,
        'key': hashlib.sha1('|'.join(ctx.key_parts).encode('utf-8', 'backslashreplace')).hexdigest()[:16],
        'sample': ctx.sample,
        'harness_error': harness_error
    }


def _worker(module_name, prop, seed, tier, indices, scratch_base, conn):
    try:
        # run in a process group of our own scratch; never in /repo
        os.chdir(scratch_base)
        module = importlib.import_module(module_name)
        if hasattr(module, 'setup_worker'):
            module.setup_worker()
        for index in indices:
            conn.send(run_one(module, prop, seed, tier, index, scratch_base))
        conn.send(None)
    except BaseException:  # pylint: disable=broad-except
        try:
            conn.send({'fatal': traceback.format_exc()})
        except Exception:  # pylint: disable=broad-except
            pass
    finally:
        conn.close()
        os._exit(0)  # pylint: disable=protected-access


def command(name, argv, **env):
    """Run a command of the repository in a process of its own -> None or (exit code, output)"""
    run = subprocess.run(
        [sys.executable, '-m', 'sciencebeam_trainer_grobid_tools.' + name] + list(argv),
        env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', **env), stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, check=False)
    return None if run.returncode == 0 else (run.returncode, run.stdout[-2000:])


def load_known_findings(prop):
    try:
        with open(KNOWN_FINDINGS_FILE, encoding='utf-8') as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [
        x for x in data.get('findings', [])
        if x.get('property') == prop and x.get('status') == 'known'
    ]


def get_tier():
    return os.environ.get('VERIF_TIER', 'quick')


def get_seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def run_check(prop, tier=None, seed=None, cases=None, workers=None, only_index=None):
    t0 = time.time()
    tier = tier or get_tier()
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = get_seed() if seed is None else seed
    module_name = 'vf.checks.%s' % prop.lower()
    module = importlib.import_module(module_name)
    n_cases = cases or module.PLAN[tier]
    indices = list(range(n_cases)) if only_index is None else [only_index]
    n_workers = min(workers or getattr(module, 'WORKERS', 8), max(1, len(indices)))
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    scratch_base = tempfile.mkdtemp(prefix='vf-%s-' % prop.lower())
    # everything the code under test creates with tempfile lands in here too
    os.environ['TMPDIR'] = scratch_base
    results = []
    fatal = []
    procs = []
    mp = multiprocessing.get_context('fork')
    budget = getattr(module, 'TIME_BUDGET', {'quick': 600, 'thorough': 6 * 3600})[tier]
    try:
        for w in range(n_workers):
            parent_conn, child_conn = mp.Pipe(duplex=False)
            p = mp.Process(target=_worker, args=(
                module_name, prop, seed, tier, indices[w::n_workers], scratch_base, child_conn
            ))
            # not daemonic: checks of the process-pool mode start children
            p.start()
            child_conn.close()
            procs.append((p, parent_conn))
        open_conns = {conn: p for p, conn in procs}
        stop_early = False
        while open_conns:
            ready = multiprocessing.connection.wait(list(open_conns), timeout=5)
            for conn in ready:
                try:
                    msg = conn.recv()
                except EOFError:
                    fatal.append('worker died')
                    del open_conns[conn]
                    continue
                if msg is None:
                    del open_conns[conn]
                elif 'fatal' in msg:
                    fatal.append(msg['fatal'])
                    del open_conns[conn]
                else:
                    results.append(msg)
            n_viol = sum(1 for r in results if r['violations'])
            if any(v['kind'] == 'no-progress' for r in results for v in r['violations']):
                stop_early = True
            if n_viol >= 40 and not load_known_findings(prop):
                stop_early = True
            if time.time() - t0 > budget:
                fatal.append('time budget %ss used up after %d cases' % (budget, len(results)))
                stop_early = True
            if stop_early:
                break
    finally:
        for p, _ in procs:
            if p.is_alive():
                try:
                    p.terminate()
                except Exception:  # pylint: disable=broad-except
                    pass
        for p, _ in procs:
            p.join(10)
        shutil.rmtree(scratch_base, ignore_errors=True)
    return _conclude(module, prop, tier, seed, results, fatal, time.time() - t0,
                     single=only_index is not None)


def _conclude(module, prop, tier, seed, results, fatal, wall, single=False):
    results.sort(key=lambda r: r['index'])
    events = collections.Counter()
    for r in results:
        events.update(r['events'])
    harness_errors = [r for r in results if r['harness_error']]
    distinct = {r['key'] for r in results if r['nontrivial']}
    known = load_known_findings(prop)
    known_hits = collections.Counter()
    new_violations = []
    for r in results:
        for v in r['violations']:
            matched = None
            for k in known:
                if v['kind'] == k['kind']:
                    matched = k
                    break
            if matched:
                known_hits[matched['kind']] += 1
            else:
                new_violations.append((r['index'], v))
    samples = [r['sample'] for r in results if r['sample'] is not None][:3]
    coverage = {
        'evaluations': len(results),
        'distinct_nontrivial': len(distinct),
        'rule': module.RULE,
        'samples': samples,
        'events': dict(sorted(events.items())),
    }
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(new_violations),
    }
    if known_hits:
        coverage['known_finding_hits'] = dict(known_hits)
    if not single:
        with open(os.path.join(EVIDENCE_DIR, prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
            f.write('\n')
    replay_dir = os.path.join(EVIDENCE_DIR, 'replay')
    if not single and os.path.isdir(replay_dir):
        for name in os.listdir(replay_dir):
            if name.startswith(prop + '-'):
                os.remove(os.path.join(replay_dir, name))
    for k in known:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (
            prop, k['what'], known_hits.get(k['kind'], 0)))
    if new_violations:
        kinds = collections.Counter(v['kind'] for _, v in new_violations)
        os.makedirs(replay_dir, exist_ok=True)
        shown = set()
        for index, v in new_violations:
            if v['kind'] in shown:
                continue
            shown.add(v['kind'])
            path = os.path.join(replay_dir, '%s-%s-%d.json' % (prop, v['kind'][:60].replace('/', '_'), index))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({
                    'property': prop, 'seed': seed, 'tier': tier, 'index': index,
                    'violation': v,
                    'how': 'python run_check.py %s --replay %s' % (prop, path)
                }, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  kind=%s (%d occurrences), case %d' % (v['kind'], kinds[v['kind']], index))
            for dk, dv in v['detail'].items():
                print('    %s: %s' % (dk, str(dv)[:600]))
            if len(shown) >= 8:
                break
        return 1
    problems = list(fatal)
    for r in harness_errors[:3]:
        problems.append('case %d: %s' % (r['index'], r['harness_error']))
    if not single:
        for name, minimum in getattr(module, 'REQUIRED_EVENTS', {}).items():
            if events.get(name, 0) < minimum:
                problems.append('monitor not reached: event %r seen %d times (need %d)' % (
                    name, events.get(name, 0), minimum))
        if not distinct:
            problems.append('no non-trivial case')
    if problems:
        for p in problems:
            print('INCONCLUSIVE property=%s %s' % (prop, p), file=sys.stderr)
        return 2
    print('OK property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs events=%s' % (
        prop, tier, seed, len(results), len(distinct), wall,
        json.dumps(dict(sorted(events.items())))))
    return 0
