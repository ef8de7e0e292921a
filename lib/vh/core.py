"""Core of the runtime-monitoring harness.

A *check* is a module in /verif/checks with a function ``cases(tier)`` that
returns a list of ``Case`` objects.  Every case runs real code of the
repository under a workload, while monitors (``Monitor.check`` and friends)
observe the execution.  The runner

* derives one deterministic RNG per case and repetition from VERIF_SEED,
* counts what the monitors observed (comparisons, events, distinct states),
* turns an exception that is raised from within the repository's code on
  a workload the property covers into a violation, and an exception of the
  harness itself into 'inconclusive' (exit code 3),
* declares a run inconclusive when a declared counter stayed below its
  minimum (a monitor that saw nothing proves nothing),
* filters known findings, writes the evidence file and replay files.
"""
import hashlib
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np

HOME = os.environ.get('VERIF_HOME', '/verif')
REPO = os.environ.get('VERIF_REPO', '/repo')


def scratch():
    return os.environ.get('VERIF_SCRATCH', '/tmp')


class HarnessError(Exception):
    pass


class Abort(Exception):
    """Stop the current case (a violation has already been reported)."""


class Case(object):
    def __init__(self, name, func, reps=1, reps_thorough=None, **kwargs):
        self.name = name
        self.func = func
        self.reps = reps
        self.reps_thorough = reps if reps_thorough is None else reps_thorough
        self.kwargs = kwargs


def rng_for(seed, *parts):
    key = ':'.join([str(seed)] + [str(p) for p in parts])
    digest = hashlib.sha256(key.encode()).digest()
    return np.random.RandomState(
        np.frombuffer(digest[:16], dtype=np.uint32))


def _short(obj, n=600):
    try:
        if isinstance(obj, np.ndarray):
            s = 'array(shape={}, dtype={}, {})'.format(
                obj.shape, obj.dtype,
                np.array2string(obj, threshold=20, precision=9))
        else:
            s = repr(obj)
    except Exception as e:
        s = '<unprintable {}: {}>'.format(type(obj), e)
    return s if len(s) <= n else s[:n] + '...'


class Monitor(object):

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.counters = {}
        self.distinct = {}
        self.violations = []
        self.known_hits = {}
        self.inconclusive = []
        self.required = {}
        self.samples = []
        self.evaluations = 0
        self.case = None
        self.rep = 0
        self.known = load_known(prop)

    # ----- observation ---------------------------------------------------
    def event(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def saw(self, name, key):
        """Record a distinct observed state / configuration / interleaving."""
        if not isinstance(key, str):
            key = repr(key)
        if len(key) > 200:
            key = hashlib.sha1(key.encode()).hexdigest()
        self.distinct.setdefault(name, set()).add(key)

    def require(self, name, minimum=1):
        """The run is inconclusive unless this counter reached minimum."""
        self.required[name] = max(self.required.get(name, 0), minimum)

    def sample(self, **kwargs):
        if len(self.samples) < 25:
            self.samples.append(
                {k: (v if isinstance(v, (int, float, str, bool, type(None)))
                     else _short(v, 200)) for k, v in kwargs.items()})

    # ----- verdicts ------------------------------------------------------
    def violation(self, kind, msg, **data):
        entry = {
            'kind': kind, 'message': msg, 'case': self.case, 'rep': self.rep,
            'seed': self.seed, 'tier': self.tier,
            'data': {k: _short(v) for k, v in data.items()},
        }
        for known in self.known:
            if known_matches(known, entry):
                self.known_hits.setdefault(known['key'], []).append(entry)
                return False
        if len(self.violations) < 50:
            self.violations.append(entry)
        self.event('violations')
        return False

    def check(self, ok, kind, msg='', **data):
        self.evaluations += 1
        self.event('check:' + kind)
        if not bool(ok):
            return self.violation(kind, msg, **data)
        return True

    def equal(self, a, b, kind, msg='', **data):
        return self.check(a == b, kind, msg or 'values differ',
                          observed=a, expected=b, **data)

    def array_equal(self, a, b, kind, msg='', check_dtype=False, **data):
        a_ = np.asarray(a)
        b_ = np.asarray(b)
        ok = a_.shape == b_.shape
        if ok and check_dtype:
            ok = a_.dtype == b_.dtype
        if ok:
            try:
                ok = bool(np.all((a_ == b_) | ((a_ != a_) & (b_ != b_))))
            except Exception:
                ok = bool(np.array_equal(a_, b_))
        return self.check(ok, kind, msg or 'arrays differ',
                          observed=a_, expected=b_, **data)

    def close(self, a, b, kind, msg='', rtol=1e-5, atol=1e-8, **data):
        a_ = np.asarray(a)
        b_ = np.asarray(b)
        ok = a_.shape == b_.shape
        worst = None
        if ok:
            with np.errstate(all='ignore'):
                close = np.isclose(a_.astype(float), b_.astype(float),
                                   rtol=rtol, atol=atol, equal_nan=True)
            ok = bool(np.all(close))
            if not ok:
                idx = np.argwhere(~close)[0]
                worst = (tuple(int(i) for i in idx),
                         float(a_[tuple(idx)]), float(b_[tuple(idx)]))
        return self.check(ok, kind, msg or 'values not close',
                          observed=a_, expected=b_, first_diff=worst,
                          **data)

    def raises(self, func, kind, msg='', exceptions=(Exception,)):
        """The operation must be refused with an exception."""
        self.evaluations += 1
        self.event('check:' + kind)
        try:
            result = func()
        except exceptions as e:
            self.saw('refusals:' + kind, type(e).__name__)
            return e
        self.violation(kind, msg or 'operation was not refused',
                       result=result)
        return None

    def call(self, kind, func, *args, **kwargs):
        """Call into the code under test; an exception is a violation."""
        self.evaluations += 1
        self.event('check:' + kind)
        try:
            return func(*args, **kwargs)
        except Abort:
            raise
        except Exception as e:
            self.violation(kind, 'raised {}: {}'.format(
                type(e).__name__, _ends(str(e))),
                where=repo_frames(e.__traceback__))
            raise Abort()


def _ends(text):
    return text if len(text) < 500 else text[:80] + ' ... ' + text[-400:]


def repo_frames(tb):
    return ['{}:{}:{}'.format(os.path.relpath(f.filename, REPO), f.lineno,
                              f.name)
            for f in traceback.extract_tb(tb)
            if os.path.abspath(f.filename).startswith(
                os.path.join(REPO, 'egenerator'))
            or '__autograph_generated_file' in f.filename]


def load_known(prop):
    path = os.path.join(HOME, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        entries = json.load(f)['findings']
    return [e for e in entries if e['property'] == prop
            and e.get('status', 'open') == 'open']


def known_matches(known, entry):
    match = known['match']
    if 'kind' in match and match['kind'] != entry['kind']:
        return False
    if 'case' in match and match['case'] != entry['case']:
        return False
    text = entry['message'] + json.dumps(entry['data'])
    for s in match.get('contains', []):
        if s not in text:
            return False
    return True


def task_list(cases, tier, only_case=None, only_rep=None):
    """(repetition, case) pairs, first repetitions of all cases first."""
    def reps(case):
        return case.reps if tier == 'quick' else case.reps_thorough
    return [(rep, case) for rep in range(max([1] + [reps(c)
                                                    for c in cases]))
            for case in cases if rep < reps(case)
            and only_case in (None, case.name) and only_rep in (None, rep)]


def run_task(prop, case, rep, monitor):
    monitor.case = case.name
    monitor.rep = rep
    rng = rng_for(monitor.seed, prop, case.name, rep)
    np.random.seed(rng.randint(2**31 - 1))
    t_case = time.time()
    try:
        case.func(monitor, rng, **case.kwargs)
        monitor.event('cases_completed')
    except Abort:
        monitor.event('cases_aborted')
    except HarnessError as e:
        monitor.inconclusive.append('case {}: {}'.format(case.name, e))
    except Exception as e:
        frames = repo_frames(e.__traceback__)
        if frames:
            monitor.violation(
                'exception', 'code under test raised {}: {}'.format(
                    type(e).__name__, str(e)[:800]), where=frames)
        else:
            monitor.inconclusive.append(
                'case {}: harness error {}'.format(
                    case.name, traceback.format_exc()[-3000:]))
    if os.environ.get('VERIF_VERBOSE'):
        print('  case {} rep {}: {:.2f}s'.format(
            case.name, rep, time.time() - t_case), file=sys.stderr)


def run_cases(prop, cases, monitor, budget_s, only_case=None, only_rep=None,
              take=None):
    """Run all tasks (or, in a worker, those that `take` hands out)."""
    t0 = time.time()
    tasks = task_list(cases, monitor.tier, only_case, only_rep)
    skipped = 0
    pending = iter(range(len(tasks))) if take is None else iter(take, None)
    for index in pending:
        if index >= len(tasks):
            break
        rep, case = tasks[index]
        if rep > 0 and time.time() - t0 > budget_s:
            # repetition 0 of every case always runs; further
            # repetitions are exploration within the time budget
            skipped += 1
            continue
        run_task(prop, case, rep, monitor)
    monitor.event('repetitions_skipped_by_budget', skipped)


def ticket(path):
    """Next unused index of a counter shared by several processes."""
    import fcntl
    with open(path, 'r+') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        n = int(f.read() or 0)
        f.seek(0)
        f.write(str(n + 1))
        f.truncate()
    return n


STATE = ['counters', 'distinct', 'violations', 'known_hits', 'inconclusive',
         'samples', 'evaluations']


def dump_state(monitor, path):
    import pickle
    with open(path + '.tmp', 'wb') as f:
        pickle.dump({k: getattr(monitor, k) for k in STATE}, f)
    os.rename(path + '.tmp', path)


def merge_state(monitor, state):
    for k, n in state['counters'].items():
        monitor.event(k, n)
    for k, v in state['distinct'].items():
        monitor.distinct.setdefault(k, set()).update(v)
    for k, v in state['known_hits'].items():
        monitor.known_hits.setdefault(k, []).extend(v)
    monitor.violations.extend(state['violations'])
    monitor.inconclusive.extend(state['inconclusive'])
    monitor.samples = (monitor.samples + state['samples'])[:25]
    monitor.evaluations += state['evaluations']


def run_workers(prop, monitor, n):
    """Distribute the tasks of a check over n fresh processes."""
    import subprocess
    base = os.path.join(scratch(), 'workers')
    os.makedirs(base)
    counter = os.path.join(base, 'counter')
    with open(counter, 'w') as f:
        f.write('0')
    procs = []
    for i in range(n):
        home = os.path.join(base, str(i))
        os.makedirs(home)
        env = dict(os.environ, VERIF_SCRATCH=home, HOME=home, TMPDIR=home,
                   VERIF_COUNTER=counter)
        err = open(os.path.join(base, '%d.err' % i), 'wb')
        procs.append((i, subprocess.Popen(
            [sys.executable, '-X', 'faulthandler', sys.argv[0], prop,
             '--worker', os.path.join(base, '%d.state' % i)],
            cwd=home, env=env, stdout=subprocess.DEVNULL,
            stderr=None if os.environ.get('VERIF_VERBOSE') else err)))
    import pickle
    for i, proc in procs:
        rc = proc.wait()
        state = os.path.join(base, '%d.state' % i)
        if os.path.exists(state):
            with open(state, 'rb') as f:
                merge_state(monitor, pickle.load(f))
        if rc != 0 or not os.path.exists(state):
            with open(os.path.join(base, '%d.err' % i), 'rb') as f:
                tail = f.read()[-2000:].decode('utf-8', 'replace')
            monitor.inconclusive.append('worker {} ended with {}: {}'.format(
                i, rc, tail))


def finish(prop, monitor, t0, level, rule, assumptions):
    wall = time.time() - t0
    for name, minimum in monitor.required.items():
        seen = monitor.counters.get(name, 0)
        if name in monitor.distinct:
            seen = max(seen, len(monitor.distinct[name]))
        if seen < minimum:
            monitor.inconclusive.append(
                'monitor counter {!r} saw {} < {}'.format(
                    name, seen, minimum))
    ev_dir = os.path.join(HOME, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    replay_path = os.path.join(ev_dir, 'replay', prop + '.json')
    if os.path.exists(replay_path):
        os.remove(replay_path)
    n_distinct = sum(len(v) for v in monitor.distinct.values())
    samples = list(monitor.samples)
    for name, keys in sorted(monitor.distinct.items()):
        samples.append({'distinct': name, 'count': len(keys),
                        'examples': sorted(keys)[:4]})
    evidence = {
        'property': prop,
        'tier': monitor.tier,
        'seed': int(monitor.seed),
        'level': level,
        'coverage': {
            'evaluations': int(monitor.evaluations),
            'distinct_nontrivial': int(n_distinct),
            'rule': rule,
            'samples': samples,
            'counters': monitor.counters,
        },
        'assumptions': assumptions,
        'wall_s': round(wall, 2),
        'violations': len(monitor.violations),
    }
    if monitor.inconclusive:
        evidence['inconclusive'] = monitor.inconclusive[:20]
    if monitor.known_hits:
        evidence['known_findings'] = {
            k: len(v) for k, v in monitor.known_hits.items()}
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    for known in monitor.known:
        n = len(monitor.known_hits.get(known['key'], []))
        print('KNOWN-FINDING: property={} {} [{}; observed {}x in this run]'
              .format(prop, known['what'], known['key'], n))
    if monitor.violations:
        with open(replay_path, 'w') as f:
            json.dump({
                'property': prop,
                'violations': monitor.violations,
                'replay': [
                    'VERIF_SEED={} VERIF_TIER={} {}/run.sh {} --case {} '
                    '--rep {}'.format(v['seed'], v['tier'], HOME, prop,
                                      v['case'], v['rep'])
                    for v in monitor.violations[:5]],
            }, f, indent=1, default=str)
        for v in monitor.violations[:8]:
            print('  [{}] case={} rep={}: {} {}'.format(
                v['kind'], v['case'], v['rep'], v['message'][:400],
                json.dumps(v['data'])[:1200]))
        print('VIOLATION property={} replay={}'.format(prop, replay_path))
        return 1
    if monitor.inconclusive:
        print('INCONCLUSIVE property={}'.format(prop))
        for line in monitor.inconclusive[:10]:
            print('  ' + line)
        return 3
    print('OK property={} tier={} seed={} evaluations={} distinct={} '
          'wall={:.1f}s'.format(prop, monitor.tier, monitor.seed,
                                monitor.evaluations, n_distinct, wall))
    return 0
