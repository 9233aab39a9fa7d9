'''Driver shared by all checks: generation (Hypothesis), isolation, shrinking, replay files, evidence.

A property module (pbt/props/cXX.py) provides
  ID            property id
  RULE          how cases are made and which count as non-trivial (text for the evidence file)
  QUICK / THOROUGH   number of generated cases per tier
  strategy()    a Hypothesis strategy for JSON-serialisable cases
  run_case(case)  executes one case against /repo; returns a list of labels ('nt:' labels mark it non-trivial);
                raises Violation when the property is broken

Cases run in worker processes (GLPK calls abort() on internal errors): the current case is on disk before it runs,
so that a case which kills the process is still reported with its input.
'''

import argparse
import hashlib
import importlib
import json
import os
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT = 120 # cpu seconds for one case (typical: well under 1); more is reported as non-termination
SHRINK_CPU = 60 # cpu seconds spent on shrinking after the first failure
SHARDS = 6
CHUNK = 150 # generated cases per worker process

class Violation(Exception):
    'the property does not hold for this case; sig identifies what failed (call site or oracle clause)'

    def __init__(self, sig, msg):
        Exception.__init__(self, f'[{sig}] {msg}')
        self.sig = sig

class HarnessError(Exception):
    'the harness itself is wrong'

class CaseTimeout(BaseException):
    'cpu limit for one case'

class StopShrinking(KeyboardInterrupt):
    'shrink budget used up'

class Discard(Exception):
    'this case is outside the domain (counted, never a verdict)'

def load(prop):
    'import a property module'

    return importlib.import_module('pbt.props.' + prop.lower())

def case_hash(case):
    'short hash of a case'

    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]

def repo_frame(exc):
    'innermost traceback frame inside the code under test, or None'

    rv = None

    for f in traceback.extract_tb(exc.__traceback__):
        if '/hylaa/' in f.filename and f.filename.startswith(os.path.realpath(REPO) + '/'):
            rv = f

    return rv

def execute(mod, case):
    '''run one case, returns (labels, violation or None). Exceptions escaping from the code under test are violations:
    run_case() is only given inputs which the documentation allows, and catches what it expects.'''

    try:
        labels = mod.run_case(case)
        return list(labels or []), None
    except Violation as v:
        return [], v
    except Discard as d:
        return ['discard:' + str(d)], None
    except (HarnessError, CaseTimeout, KeyboardInterrupt):
        raise
    except Exception as e: # pylint: disable=broad-except
        frame = repo_frame(e)

        # the reference could not decide the case: no verdict
        if frame is None and any(os.path.basename(f.filename) == 'ref.py' for f in traceback.extract_tb(e.__traceback__)):
            return [f'discard:reference {type(e).__name__}'], None

        if frame is None:
            # raised outside /repo: the harness misses something it needs (an error of the harness), or what the code under
            # test returned is not usable as documented (wrong type, missing field, wrong shape)
            if isinstance(e, (ImportError, NameError, MemoryError, OSError)):
                raise

            last = traceback.extract_tb(e.__traceback__)[-1]
            where = f'{os.path.basename(last.filename)}:{last.name}'

            return [], Violation(f'unexpected:{type(e).__name__}@{where}',
                                 f'{type(e).__name__}: {str(e)[:300]} (line {last.lineno}) while reading the results')

        v = Violation(f'crash:{type(e).__name__}@{os.path.basename(frame.filename)}:{frame.name}',
                      f'{type(e).__name__}: {str(e)[:300]} (line {frame.lineno})')
        return [], v

def known_findings(prop):
    'the committed findings for a property: list of dicts with sig, what, case'

    path = os.path.join(VERIF, 'known_findings.json')

    if not os.path.exists(path):
        return []

    with open(path) as f:
        data = json.load(f)

    return [e for e in data.get('findings', []) if e['property'] == prop]

def is_known(violation, findings):
    'the finding that describes this violation, or None'

    for e in findings:
        if re.fullmatch(e['sig'], violation.sig):
            return e

    return None

# ---------------------------------------------------------------- worker side

class Worker():
    'runs one chunk of generated cases in its own process'

    def __init__(self, prop, tier, seed, count, out):
        self.mod = load(prop)
        self.tier = tier
        self.seed = seed
        self.count = count
        self.out = out
        self.findings = known_findings(prop)
        self.res = {'evaluations': 0, 'discarded': 0, 'labels': {}, 'nontrivial': [], 'samples': [], 'failure': None, 'known': {},
                    'known_excluded': 0, 'slowest': [0.0, None], 'error': None, 'done': False}
        self.best = None
        self.first_fail_cpu = None
        self.fail_sig = None

    def save(self):
        'write the result file'

        tmp = self.out + '.tmp'

        with open(tmp, 'w') as f:
            json.dump(self.res, f)

        os.replace(tmp, self.out)

    def one(self, case):
        'run one case inside hypothesis'

        with open(self.out + '.case', 'w') as f:
            json.dump(case, f)

        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)

        cpu = time.process_time()

        try:
            labels, violation = execute(self.mod, case)
        except CaseTimeout:
            labels, violation = [], Violation('hang', f'case used more than {CPU_LIMIT} s of cpu time')
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

        cpu = time.process_time() - cpu

        if cpu > self.res['slowest'][0]:
            self.res['slowest'] = [round(cpu, 2), case if cpu > 5 else None]

        if violation is not None:
            known = is_known(violation, self.findings)

            if known:
                self.res['known'][known['sig']] = case
                self.res['known_excluded'] += 1
                return

            # shrink within the root cause that was found first
            if self.fail_sig is None:
                self.fail_sig = violation.sig
                self.first_fail_cpu = time.process_time()
            elif violation.sig != self.fail_sig:
                return

            size = len(json.dumps(case))

            if self.best is None or size < self.best[0]:
                self.best = (size, case, str(violation))

            if time.process_time() - self.first_fail_cpu > SHRINK_CPU or violation.sig == 'hang':
                raise StopShrinking()

            raise violation

        if self.fail_sig is None: # not counting shrinking attempts
            if labels and labels[0].startswith('discard:'):
                self.res['discarded'] += 1
            else:
                self.res['evaluations'] += 1

            nt = False

            for l in labels:
                self.res['labels'][l] = self.res['labels'].get(l, 0) + 1
                nt = nt or l.startswith('nt:')

            if nt:
                self.res['nontrivial'].append(case_hash(case))

                if len(self.res['samples']) < 2 and len(json.dumps(case)) < 6000:
                    self.res['samples'].append(case)

    def run(self):
        'generate and run'

        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, Verbosity

        def on_prof(_sig, _frame):
            raise CaseTimeout()

        signal.signal(signal.SIGPROF, on_prof)

        @hypothesis.seed(self.seed)
        @settings(max_examples=self.count, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                  verbosity=Verbosity.quiet, phases=(Phase.generate, Phase.shrink))
        @given(self.mod.strategy())
        def test(case):
            self.one(case)

        try:
            test()
        except (Violation, StopShrinking):
            pass
        except BaseException as e: # pylint: disable=broad-except
            if self.best is None:
                self.res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]

        if self.best is not None:
            self.res['failure'] = {'case': self.best[1], 'message': self.best[2]}

        self.res['done'] = True
        self.save()

def quiet_stdout():
    'the code under test prints; keep the check output readable. returns the real stdout'

    real = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.close(devnull)

    return os.fdopen(real, 'w')

def worker_main(argv):
    'entry of a worker process'

    prop, tier, seed, count, out = argv[0], argv[1], int(argv[2]), int(argv[3]), argv[4]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    quiet_stdout()
    Worker(prop, tier, seed, count, out).run()

    return 0

def replay_main(prop, path, out):
    '''entry of a replay process: one saved case, no Hypothesis.  Exit 0 held, 1 violated, 3 known finding'''

    stdout = quiet_stdout()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = load(prop)

    with open(path) as f:
        data = json.load(f)

    case = data['case'] if 'case' in data else data

    def on_prof(_sig, _frame):
        raise CaseTimeout()

    signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)

    try:
        labels, violation = execute(mod, case)
    except CaseTimeout:
        labels, violation = [], Violation('hang', f'case used more than {CPU_LIMIT} s of cpu time')

    signal.setitimer(signal.ITIMER_PROF, 0)

    rv = 0
    known = None

    if violation is not None:
        known = is_known(violation, known_findings(prop))
        rv = 3 if known else 1

    if out:
        with open(out, 'w') as f:
            json.dump({'labels': labels, 'message': str(violation) if violation else None,
                       'sig': violation.sig if violation else None}, f)
    else:
        stdout.write(f'labels: {labels}\n')

        if known:
            stdout.write(f'KNOWN-FINDING: property={prop} {known["what"]}\n')
        elif violation:
            stdout.write(f'{violation}\nVIOLATION property={prop} replay={path}\n')

        stdout.flush()

    return rv

# ---------------------------------------------------------------- parent side

class Shard():
    'a sequence of worker processes run one after the other'

    def __init__(self, prop, tier, seed, index, count, tmpdir):
        self.prop, self.tier, self.tmpdir = prop, tier, tmpdir
        self.jobs = []
        chunk = 0

        while count > 0:
            n = min(CHUNK, count)
            self.jobs.append((seed * 1000003 + index * 1009 + chunk, n, os.path.join(tmpdir, f's{index}_{chunk}.json')))
            count -= n
            chunk += 1

        self.proc = None
        self.cur = None
        self.results = []
        self.died = None

    def start_next(self):
        'start the next worker; returns False if there is none'

        if not self.jobs:
            return False

        self.cur = self.jobs.pop(0)
        seed, n, out = self.cur
        cmd = [sys.executable, os.path.join(VERIF, 'check.py'), '--worker', self.prop, self.tier, str(seed), str(n), out]
        err = open(out + '.err', 'w')
        self.proc = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, cwd=self.tmpdir)
        err.close()

        return True

    def poll(self, stop):
        'advance; returns True when finished'

        if self.proc is None:
            return stop or not self.start_next()

        rc = self.proc.poll()
        _, _, out = self.cur

        if rc is None:
            case = out + '.case'

            # a case stuck inside native code never sees the profiling signal
            if os.path.exists(case) and time.time() - os.path.getmtime(case) > 4 * CPU_LIMIT:
                self.proc.kill()
                self.proc.wait()
                self.died = (out, f'hang in native code (> {4 * CPU_LIMIT} s)')
                self.proc = None
                self.jobs = []

            return False

        self.proc = None

        if os.path.exists(out):
            with open(out) as f:
                self.results.append(json.load(f))

            if self.results[-1]['failure'] or self.results[-1]['error']:
                self.jobs = []
        else:
            self.died = (out, f'worker died with status {rc}')
            self.jobs = []

        return False

def write_replay(prop, case, message):
    'write a replay file'

    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{case_hash(case)}.json')

    with open(path, 'w') as f:
        json.dump({'property': prop, 'message': message, 'case': case}, f, indent=1)

    return path

def run_replay(prop, path, tmpdir, tag):
    'run one saved case in a subprocess: (status, info)'

    out = os.path.join(tmpdir, tag + '.json')
    cmd = [sys.executable, os.path.join(VERIF, 'check.py'), '--replay-worker', prop, path, out]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=tmpdir)
    info = {}

    if os.path.exists(out):
        with open(out) as f:
            info = json.load(f)

    return p.returncode, info, p.stderr.decode(errors='replace')

def run_batch_corpus(prop, tmpdir):
    '''replay the committed corpus: one process for all, falling back to single replays if it dies'''

    d = os.path.join(VERIF, 'corpus', prop)
    files = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.json')) if os.path.isdir(d) else []

    return files

def main(argv):
    'entry point'

    if argv and argv[0] == '--worker':
        return worker_main(argv[1:])

    if argv and argv[0] == '--replay-worker':
        return replay_main(argv[1], argv[2], argv[3])

    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--count', type=int, default=None)
    ap.add_argument('--replay', default=None)
    args = ap.parse_args(argv)

    if args.replay:
        return replay_main(args.prop, os.path.abspath(args.replay), None)

    tmp = tempfile.mkdtemp(prefix='hylaa-pbt-')

    try:
        return run_check(args, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

def run_check(args, tmp): # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    'run one check'

    t0 = time.time()
    prop, tier = args.prop, args.tier
    mod = load(prop)
    total = args.count or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    evidence_path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    failures = [] # (path, message)
    errors = []
    known_lines = []
    evaluations = corpus_run = discarded = 0
    budget = 420 if tier == 'quick' else 3000

    # ---- known findings: reproduce each on this tree
    for i, e in enumerate(known_findings(prop)):
        path = os.path.join(tmp, f'known{i}.in.json')

        with open(path, 'w') as f:
            json.dump({'case': e['case']}, f)

        rc, info, _ = run_replay(prop, path, tmp, f'known{i}')

        if rc == 3:
            known_lines.append(f'KNOWN-FINDING: property={prop} {e["what"]}')
        elif rc != 0:
            rp = write_replay(prop, e['case'], info.get('message') or f'replay died with status {rc}')
            failures.append((rp, info.get('message') or f'status {rc}'))

    # ---- regression corpus (committed, replayed without Hypothesis)
    files = run_batch_corpus(prop, tmp)
    procs = []

    for i, path in enumerate(files):
        procs.append((path, run_replay_async(prop, path, tmp, f'corpus{i}')))

        if len([1 for _, p in procs if p[0].poll() is None]) >= SHARDS:
            procs[-1][1][0].wait()

    for path, (p, out, err) in procs:
        rc = p.wait()
        corpus_run += 1
        info = {}

        if os.path.exists(out):
            with open(out) as f:
                info = json.load(f)

        if rc == 1 and info.get('message'):
            failures.append((path, info['message']))
        elif rc < 0:
            failures.append((path, f'process died with signal {-rc}'))
        elif rc not in (0, 3):
            with open(err) as f:
                errors.append(f'corpus {path}: status {rc} {f.read()[-3000:]}')

    # ---- generated cases
    shards = []

    if not failures and not errors:
        per = [total // SHARDS + (1 if i < total % SHARDS else 0) for i in range(SHARDS)]
        shards = [Shard(prop, tier, args.seed, i, per[i], tmp) for i in range(SHARDS) if per[i] > 0]
        stop = False
        active = list(shards)

        while active:
            active = [s for s in active if not s.poll(stop)]

            if not stop and any(s.died or any(r['failure'] or r['error'] for r in s.results) for s in shards):
                stop = True # let running workers finish shrinking, start no new ones

            if not stop and time.time() - t0 > budget:
                stop = True

            time.sleep(0.05)

    labels = {}
    nontrivial = set()
    samples = []
    known_seen = 0
    slowest = [0.0, None]

    for s in shards:
        for r in s.results:
            evaluations += r['evaluations']
            discarded += r['discarded']
            known_seen += r['known_excluded']
            nontrivial.update(r['nontrivial'])

            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v

            slowest = max(slowest, r['slowest'], key=lambda x: x[0])

            if len(samples) < 4:
                samples += r['samples'][:1]

            if r['failure']:
                rp = write_replay(prop, r['failure']['case'], r['failure']['message'])
                failures.append((rp, r['failure']['message']))

            if r['error']:
                errors.append(r['error'])

        if s.died:
            out, why = s.died
            case = None

            if os.path.exists(out + '.case'):
                try:
                    with open(out + '.case') as f:
                        case = json.load(f)
                except ValueError:
                    case = None

            if case is None:
                with open(out + '.err') as f:
                    errors.append(why + ': ' + f.read()[-3000:])
            else:
                # confirm: the saved case alone must kill a fresh process as well
                rp = write_replay(prop, case, why)
                rc, info, err = run_replay(prop, rp, tmp, 'died')

                if rc < 0 or rc == 1 or 'hang' in why:
                    failures.append((rp, info.get('message') or why))
                else:
                    with open(out + '.err') as f:
                        errors.append(f'{why}, not reproducible from the saved case (status {rc}) {err[-1500:]}\n'
                                      f'{f.read()[-3000:]}')

    for line in known_lines:
        print(line)

    failures.sort(key=lambda f: os.path.getsize(f[0]))

    evidence = {'property': prop, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
                'coverage': {'evaluations': evaluations + corpus_run, 'distinct_nontrivial': len(nontrivial),
                             'rule': mod.RULE, 'samples': samples or [f'corpus: {p}' for p in files[:2]] or ['none run'],
                             'classes': dict(sorted(labels.items(), key=lambda kv: -kv[1])),
                             'corpus_replayed': corpus_run, 'known_findings_excluded': known_seen,
                             'requested_cases': total, 'slowest_case_cpu_s': slowest[0],
                             'slowest_case': slowest[1], 'discarded_out_of_domain': discarded},
                'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
                'wall_s': round(time.time() - t0, 2), 'violations': len(failures)}

    with open(evidence_path, 'w') as f:
        json.dump(evidence, f, indent=1)

    print(f'{prop} {tier} seed={args.seed}: {evaluations} generated cases, {len(nontrivial)} distinct non-trivial, '
          f'{corpus_run} corpus cases, {time.time() - t0:.1f} s')

    for path, message in failures:
        print(message)

    if failures:
        print(f'VIOLATION property={prop} replay={failures[0][0]}')
        return 1

    if errors:
        print('HARNESS ERROR\n' + '\n'.join(errors))
        return 2

    if evaluations == 0 and corpus_run == 0:
        print('HARNESS ERROR nothing was run')
        return 2

    return 0

def run_replay_async(prop, path, tmpdir, tag):
    'start a replay process: (popen, result file, stderr file)'

    out = os.path.join(tmpdir, tag + '.json')
    err = os.path.join(tmpdir, tag + '.err')
    cmd = [sys.executable, os.path.join(VERIF, 'check.py'), '--replay-worker', prop, path, out]

    with open(err, 'w') as f:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=f, cwd=tmpdir)

    return p, out, err
