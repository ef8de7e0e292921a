import functools
import json
import os
import shutil
import tempfile
import time

import numpy as np

from vh.core import Case, scratch
from vh.forkrun import run_scenarios
from vh import synth_handler as sh

RULE = ('a case is one complete run of the multiprocessing batch generator '
        'with random files (sizes, delays, missing and declined ones), worker '
        'count, capacities, num_add_files and num_repetitions; distinct '
        'schedules are counted by the recorded load start/end log')
ASSUMPTIONS = [
    'a scenario counts as hung if no loader event and no batch is seen for '
    '30 s although all injected delays are below 0.5 s',
    'schedules are perturbed by random delays in loaders and consumer and by '
    'SIGSTOP/SIGCONT of the worker processes']
BUDGET = {'quick': 15, 'thorough': 420}
REQUIRE = {'events_delivered': 200, 'scenarios_completed': 20,
           'load_logs': 10}


def make_spec(rng, special=None):
    n_files = int(rng.choice([1, 2, 3, 5, 8]))
    spec = dict(
        num_jobs=int(rng.choice([1, 1, 2, 3, 5])),
        file_capacity=int(rng.choice([1, 2, 10])),
        batch_capacity=int(rng.choice([1, 2, 20])),
        num_add_files=int(rng.choice([0, 0, 1, 3, 10])),
        num_repetitions=int(rng.choice([1, 1, 2, 3])),
        batch_size=int(rng.choice([1, 2, 3, 7, 16, 100])),
        sample_randomly=bool(rng.rand() < 0.6),
        layout=int(rng.randint(3)),
        exists_second=bool(rng.rand() < 0.7),
        consumer_delay=float(rng.choice([0., 0., 0.02, 0.1])),
        chaos=bool(rng.rand() < 0.5), special=special, tf=False,
        pattern=bool(rng.rand() < 0.3),
    )
    files = []
    eid = 1
    for f in range(n_files):
        n_events = int(rng.choice([1, 2, 5, 11]))
        events = []
        for _ in range(n_events):
            events.append([eid, int(rng.choice([0, 1, 3, 20])),
                           int(rng.choice([0, 0, 2]))])
            eid += 1
        kind = 'ok'
        if rng.rand() < 0.2:
            kind = rng.choice(['missing', 'declined'])
        files.append(dict(events=events, kind=str(kind),
                          delay=float(rng.choice([0., 0., 0.01, 0.15]))))
    spec['files'] = files
    if special == 'no_files':
        spec['files'] = []
    elif special == 'all_missing':
        for f in files:
            f['kind'] = 'missing'
    elif special == 'all_declined':
        for f in files:
            f['kind'] = 'declined'
    elif special == 'last_declined_slow':
        spec['files'] = [dict(events=[[1, 2, 0]], kind='ok', delay=0.),
                         dict(events=[[2, 2, 0]], kind='declined',
                              delay=0.4)]
        spec.update(num_jobs=1, batch_size=1, num_add_files=0,
                    num_repetitions=1)
    elif special == 'more_workers_than_files':
        spec['files'] = [dict(events=[[1 + k, 2, 0]], kind='ok', delay=0.2)
                         for k in range(2)]
        spec.update(num_jobs=5)
    elif special == 'leftover_slow_consumer':
        spec['files'] = [dict(events=[[1 + k, 1, 0] for k in range(5)],
                              kind='ok', delay=0.)]
        spec.update(num_jobs=1, batch_size=4, num_repetitions=1,
                    consumer_delay=0.3, batch_capacity=1)
    elif special == 'leftover_fast_consumer':
        spec['files'] = [dict(events=[[1 + 50 * j + k, 1, 0]
                                      for k in range(5)],
                              kind='ok', delay=0.1) for j in range(3)]
        spec.update(num_jobs=1, batch_size=4, num_repetitions=1,
                    consumer_delay=0., batch_capacity=20)
    elif special == 'add_more_than_exist':
        spec.update(num_add_files=50)
    elif special == 'repetitions_small_files':
        spec.update(num_repetitions=5, batch_size=100)
    elif special == 'slow_loader_many_workers':
        for f in files:
            f['delay'] = 0.3
        spec.update(num_jobs=4, num_add_files=0, batch_size=1)
    elif special == 'tf_dataset':
        spec.update(tf=True)
    elif special == 'ordered':
        spec.update(num_jobs=1, sample_randomly=False, num_repetitions=1)
    if spec['num_repetitions'] > 1 and spec['batch_size'] == 100:
        pass
    return spec


def scenario(beat, spec, directory):
    os.makedirs(directory, exist_ok=True)
    paths = []
    for k, f in enumerate(spec['files']):
        path = os.path.join(directory, 'f_{:03d}.json'.format(k))
        if f['kind'] != 'missing':
            sh.write_file(path, f['events'], f['delay'],
                          f['kind'] == 'declined')
        paths.append(path)
    log_path = os.path.join(directory, 'log')
    sh.LOG['beat'] = beat
    sh.LOG['log'] = os.open(log_path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    handler = sh.SynthHandler()
    handler.configure(config=dict(layout=spec['layout'],
                                  exists_second=spec['exists_second']))
    if spec['pattern'] or not paths:
        input_data = os.path.join(directory, 'f_*.json')
    elif any(f['kind'] == 'missing' for f in spec['files']):
        # files vanish after they were listed (deleted while waiting)
        input_data = paths
        for p in paths:
            if not os.path.exists(p):
                open(p, 'w').close()
    else:
        input_data = paths
    kwargs = {k: spec[k] for k in [
        'num_jobs', 'file_capacity', 'batch_capacity', 'num_add_files',
        'num_repetitions', 'batch_size', 'sample_randomly']}
    vanish = [p for p, f in zip(paths, spec['files'])
              if f['kind'] == 'missing' and os.path.exists(p)]
    if vanish:
        # listed by the generator, but gone when a worker gets to it: make
        # the listing see the file and the workers not
        import glob as _glob
        real_glob = _glob.glob

        def listing(pattern, *a, **k):
            res = real_glob(pattern, *a, **k)
            return res
        gen_factory = functools.partial(handler.get_batch_generator,
                                        input_data,
                                        pick_random_files_forever=False,
                                        **kwargs)
        import egenerator.data.handler.base as base
        real_exists = os.path.exists
        gone = set(vanish)

        class PathProxy(object):
            def __getattr__(self, name):
                return getattr(os.path, name)

            @staticmethod
            def exists(p):
                return p not in gone and real_exists(p)

        class OsProxy(object):
            path = PathProxy()

            def __getattr__(self, name):
                return getattr(os, name)
        base.os = OsProxy()
        generator = gen_factory()
        base.os = os
        for p in vanish:
            # whichever way the workers look, they do not find it
            if real_exists(p):
                os.remove(p)
    else:
        if spec['tf']:
            ds = handler.get_tf_dataset(
                input_data, pick_random_files_forever=False,
                dataset_capacity=2, **kwargs)
            generator = (tuple(t.numpy() for t in b) for b in ds)
        else:
            generator = handler.get_batch_generator(
                input_data, pick_random_files_forever=False, **kwargs)
    batches = []
    for batch in generator:
        beat(b'b')
        if spec['consumer_delay']:
            time.sleep(spec['consumer_delay'])
        batches.append({n: np.asarray(b) for n, b in zip(
            handler.tensors.names, batch)})
        if len(batches) > 5000:
            return None, 'endless'
    with open(log_path) as f:
        log = f.read()
    return batches, log


def check_result(m, spec, key, res):
    status, result, stops = res
    m.event('injected_stops', stops)
    if status == 'stalled':
        m.violation('hang', 'the batch generator neither delivered a batch '
                    'nor ended', spec=spec, result=result)
        return None
    if status == 'exception':
        if result['where']:
            m.violation('exception', 'batch generator raised {}: {}'.format(
                result['type'], result['message']), spec=spec,
                where=result['where'])
        else:
            from vh.core import HarnessError
            raise HarnessError(result['traceback'])
        return None
    if status == 'died':
        m.violation('died', 'process died', spec=spec, result=result)
        return None
    batches, log = result
    if batches is None:
        m.violation('endless', 'the iteration does not end', spec=spec)
        return None
    m.event('scenarios_completed')
    m.event('load_logs')
    m.saw('schedule', log)
    m.saw('config', {k: v for k, v in spec.items() if k != 'files'})
    expected = {}
    order = []
    for f in spec['files']:
        if f['kind'] == 'ok':
            for e in f['events']:
                expected[e[0]] = spec['num_repetitions']
                order.append(e[0])
    total = sum(expected.values())
    got = []
    sizes = []
    for b in batches:
        ids = np.asarray(b['x_parameters'])[:, 0] if len(
            np.asarray(b['x_parameters']).shape) == 2 else None
        if not m.check(ids is not None, 'batch-shape', 'malformed batch'):
            return None
        got.extend(int(round(float(v))) for v in ids)
        sizes.append(len(ids))
    m.event('events_delivered', len(got))
    m.event('batches_delivered', len(batches))
    counts = {}
    for e in got:
        counts[e] = counts.get(e, 0) + 1
    lost = {e: (counts.get(e, 0), n) for e, n in expected.items()
            if counts.get(e, 0) < n}
    extra = {e: (n, expected.get(e, 0)) for e, n in counts.items()
             if n > expected.get(e, 0)}
    m.check(not lost, 'lost-events', 'events missing (got, expected)',
            lost=lost, spec=spec, sizes=sizes)
    m.check(not extra, 'duplicated-events', 'events delivered too often '
            '(got, expected)', extra=extra, spec=spec)
    n_full, rest = divmod(total, spec['batch_size'])
    want = [spec['batch_size']] * n_full + ([rest] if rest else [])
    m.equal(sizes, want, 'batch-sizes', spec=spec)
    if (spec['num_jobs'] == 1 and not spec['sample_randomly']
            and not spec['pattern'] and spec['num_repetitions'] == 1):
        m.event('ordered_runs')
        m.equal(got, order, 'file-order', spec=spec)
    m.sample(config={k: v for k, v in spec.items() if k != 'files'},
             n_files=len(spec['files']), batches=len(batches),
             events=len(got))
    return batches


SPECIALS = ['no_files', 'all_missing', 'all_declined', 'last_declined_slow',
            'more_workers_than_files', 'leftover_slow_consumer',
            'leftover_fast_consumer', 'add_more_than_exist',
            'repetitions_small_files', 'slow_loader_many_workers',
            'tf_dataset', 'ordered']


def run_group(m, rng, specs):
    base = tempfile.mkdtemp(dir=scratch())
    scenarios = []
    for k, spec in enumerate(specs):
        scenarios.append((k, functools.partial(
            scenario, spec=spec, directory=os.path.join(base, str(k))),
            int(rng.randint(2**31)) if spec['chaos'] else None))
    results = run_scenarios(scenarios, parallel=8)
    out = []
    for k, spec in enumerate(specs):
        out.append((spec, check_result(m, spec, k, results[k])))
    shutil.rmtree(base)
    return out


def case_special(m, rng):
    run_group(m, rng, [make_spec(rng, s) for s in SPECIALS])


def case_random(m, rng, n):
    run_group(m, rng, [make_spec(rng) for _ in range(n)])


def cases(tier):
    return [
        Case('special', case_special, reps=1, reps_thorough=6),
        Case('random', case_random, reps=2, reps_thorough=60, n=16),
    ]
