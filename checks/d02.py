import functools
import os
import shutil
import tempfile

import numpy as np

import d01
from vh.core import Case, scratch
from vh.forkrun import run_scenarios
from vh import synth_handler as sh

RULE = ('a case is one run of the batch generator over synthetic event files '
        'whose every value encodes event and row number; each delivered row '
        'is traced back to its event; distinct = (event, batch position, '
        'partial/full batch, layout) combinations and configurations')
ASSUMPTIONS = ['the synthetic handler only replaces the file reader; '
               'batching, splitting and renumbering are the real code']
BUDGET = {'quick': 15, 'thorough': 420}
REQUIRE = {'events_verified': 300, 'partial_batches': 5,
           'events_without_pulses': 20, 'vector_rows_verified': 500}


def verify_batches(m, spec, batches):
    tensors = sh.make_tensors(spec['layout'], spec['exists_second'])
    content = {}
    for f in spec['files']:
        for eid, n_p, n_w in f['events']:
            content[eid] = sh.event_content(eid, n_p, n_w)
    for batch in batches:
        m.event('batches')
        shapes_ok = True
        for tensor in tensors.list:
            arr = batch[tensor.name]
            shapes_ok &= m.equal(str(arr.dtype), str(np.dtype(tensor.dtype)),
                                 'dtype', tensor=tensor.name, spec=spec,
                                 n=len(arr))
            if tensor.exists:
                shapes_ok &= m.check(
                    arr.ndim == len(tensor.shape) and all(
                        s is None or s == a
                        for s, a in zip(tensor.shape, arr.shape)),
                    'shape', 'declared {} got {}'.format(
                        tensor.shape, arr.shape), tensor=tensor.name,
                    spec=spec)
        if not shapes_ok:
            continue
        n = len(batch['x_parameters'])
        if n < spec['batch_size']:
            m.event('partial_batches')
        for name in ['x_image', 'x_flag']:
            m.equal(len(batch[name]), n, 'batch-size-mismatch', tensor=name)
        for base in ['x_pulses', 'x_wins']:
            if base == 'x_wins' and not spec['exists_second']:
                continue
            ids = batch[base + '_ids']
            m.check(len(ids) == len(batch[base]), 'vector-length-mismatch',
                    tensor=base)
            if len(ids):
                m.check(ids[:, 0].min() >= 0 and ids[:, 0].max() < n,
                        'event-label-range', observed=ids[:, 0], n=n)
        for i in range(n):
            eid = int(round(float(batch['x_parameters'][i, 0])))
            if not m.check(eid in content, 'unknown-event', eid=eid):
                continue
            c = content[eid]
            m.event('events_verified')
            m.saw('event@position', (eid, i, n, spec['layout']))
            m.array_equal(batch['x_parameters'][i],
                          c['x_parameters'].astype(np.float32), 'row-mixed',
                          tensor='x_parameters', event=eid, position=i)
            m.array_equal(batch['x_image'][i], c['x_image'], 'row-mixed',
                          tensor='x_image', event=eid, position=i)
            m.array_equal(batch['x_flag'][i], c['x_flag'], 'row-mixed',
                          tensor='x_flag', event=eid, position=i)
            for base, dtype in [('x_pulses', np.float32),
                                ('x_wins', np.float64)]:
                if base == 'x_wins' and not spec['exists_second']:
                    continue
                mask = batch[base + '_ids'][:, 0] == i
                m.event('vector_rows_verified', int(mask.sum()))
                if base == 'x_pulses' and len(c[base]) == 0:
                    m.event('events_without_pulses')
                m.array_equal(batch[base][mask], c[base].astype(dtype),
                              'vector-rows', tensor=base, event=eid,
                              position=i, spec=spec)
                m.array_equal(batch[base + '_ids'][mask][:, 1:],
                              c[base + '_ids'], 'vector-ids', tensor=base,
                              event=eid, position=i, spec=spec)


def forever_scenario(beat, spec, directory):
    os.makedirs(directory, exist_ok=True)
    for k, f in enumerate(spec['files']):
        sh.write_file(os.path.join(directory, 'f_{:03d}.json'.format(k)),
                      f['events'], f['delay'], False)
    sh.LOG['beat'] = beat
    handler = sh.SynthHandler()
    handler.configure(config=dict(layout=spec['layout'],
                                  exists_second=spec['exists_second']))
    kwargs = {k: spec[k] for k in [
        'num_jobs', 'file_capacity', 'batch_capacity', 'num_add_files',
        'num_repetitions', 'batch_size', 'sample_randomly']}
    generator = handler.get_batch_generator(
        os.path.join(directory, 'f_*.json'), pick_random_files_forever=True,
        **kwargs)
    batches = []
    for _ in range(12):
        batch = next(generator)
        beat(b'b')
        batches.append({n: np.asarray(b) for n, b in zip(
            handler.tensors.names, batch)})
    return batches, ''


def case_once(m, rng, n):
    specs = []
    for _ in range(n):
        spec = d01.make_spec(rng)
        spec['consumer_delay'] = 0.
        for f in spec['files']:
            f['kind'] = 'ok'
            f['delay'] = 0.
            # include files in which no event has any pulses
            if rng.rand() < 0.2:
                for e in f['events']:
                    e[1] = 0
        spec['chaos'] = False
        specs.append(spec)
    for spec, batches in d01.run_group(m, rng, specs):
        if batches is not None:
            verify_batches(m, spec, batches)


def case_forever(m, rng, n):
    base = tempfile.mkdtemp(dir=scratch())
    scenarios = []
    specs = []
    for k in range(n):
        spec = d01.make_spec(rng)
        for f in spec['files']:
            f['delay'] = 0.
            f['kind'] = 'ok'
        spec['batch_size'] = int(rng.choice([1, 3, 8]))
        spec['num_add_files'] = int(rng.choice([0, 2]))
        specs.append(spec)
        scenarios.append((k, functools.partial(
            forever_scenario, spec=spec,
            directory=os.path.join(base, str(k))), None))
    results = run_scenarios(scenarios, parallel=8)
    for k, spec in enumerate(specs):
        status, result, _ = results[k]
        if not m.check(status == 'ok', status, 'endless generator failed',
                       result=result, spec=spec):
            continue
        m.event('endless_runs')
        batches = result[0]
        for b in batches:
            m.equal(len(b['x_parameters']), spec['batch_size'],
                    'endless-batch-size')
        verify_batches(m, spec, batches)
    shutil.rmtree(base)


def cases(tier):
    return [
        Case('once', case_once, reps=2, reps_thorough=60, n=16),
        Case('forever', case_forever, reps=1, reps_thorough=20, n=8),
    ]
