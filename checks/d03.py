import os

import numpy as np

import d04
from vh.core import Case, scratch
from vh import events as ev
from vh.synth_handler import SynthHandler

RULE = ('(a) random index layouts (interleaved, empty events, none at all) '
        'are split and joined; (b) generated HDF files are read with event '
        'filters of random strictness and the kept events are compared with '
        'the event records; distinct = (layout, mask) pairs')
ASSUMPTIONS = ['all tables of a file list the events in the same order']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'rows_split': 500, 'filtered_files': 10, 'events_dropped': 10,
           'events_kept': 10, 'all_dropped': 1, 'pulses_compared': 300}


def case_structure(m, rng, n):
    handler = SynthHandler()
    handler.configure(config=dict(layout=0, exists_second=True))
    for k in range(n):
        num = int(rng.choice([0, 1, 2, 5, 17]))
        rows = int(rng.choice([0, 1, 3, 40, 300])) if num else 0
        owner = rng.randint(0, max(num, 1), size=rows)
        if num > 2 and rng.rand() < 0.5:
            owner[owner == rng.randint(num)] = 0
        if rng.rand() < 0.4:
            owner = np.sort(owner)
        dtype = rng.choice(['float32', 'float64'])
        values = rng.normal(size=(rows, int(rng.choice([1, 2, 3])))
                            ).astype(dtype)
        ids = np.stack([owner, rng.randint(86, size=rows),
                        rng.randint(60, size=rows)], axis=1).astype(np.int32)
        v0, i0 = values.copy(), ids.copy()
        vals, inds = handler.batch_to_event_structure(values, ids, num)
        m.event('rows_split', rows)
        m.saw('layout', (num, rows, tuple(np.bincount(
            owner, minlength=num)[:20]) if rows else ()))
        m.equal((len(vals), len(inds)), (num, num), 'event-count')
        for e in range(min(num, len(vals))):
            m.array_equal(vals[e], v0[owner == e], 'event-rows',
                          check_dtype=True, event=e)
            m.array_equal(inds[e], i0[owner == e], 'event-ids',
                          check_dtype=True, event=e)
        m.array_equal(values, v0, 'input-modified')
        m.array_equal(ids, i0, 'input-modified')
        if num == 0:
            continue
        v2, i2 = handler.event_to_batch_structure(vals, inds, num)
        perm = np.argsort(owner, kind='stable')
        m.array_equal(v2, v0[perm], 'round-trip', check_dtype=True)
        m.array_equal(i2, i0[perm], 'round-trip', check_dtype=True)
        v3, i3 = handler.batch_to_event_structure(v2, i2, num)
        for e in range(num):
            m.array_equal(v3[e], vals[e], 'round-trip-2')
            m.array_equal(i3[e], inds[e], 'round-trip-2')
        # a joined batch in which the events are in the wrong place is
        # refused
        if num > 1 and rows and len(inds[0]):
            m.raises(lambda: handler.event_to_batch_structure(
                vals[::-1], inds[::-1], num), 'misplaced-events-accepted')
            m.raises(lambda: handler.event_to_batch_structure(
                vals, inds, num - 1), 'wrong-count-accepted')


def case_filter(m, rng, n):
    for k in range(n):
        settings = d04.random_settings(rng)
        if rng.rand() < 0.3:
            settings['dom_exclusions_key'] = None
        if rng.rand() < 0.3:
            settings['time_exclusions_key'] = None
        events = d04.random_events(rng)
        if len(events) < 3:
            events = ev.make_events(rng, 6)
        z = [e['labels']['cascade_z'] for e in events]
        mode = ['random', 'none-kept', 'all-kept', 'one-kept',
                'first-dropped'][k % 5]
        seeds = ['SeedB', 'SeedA']
        tables = {}
        for s in seeds:
            tables[s] = (['a', 'b'], [list(rng.normal(size=2))
                                      for _ in events])
        if mode == 'random':
            threshold = float(np.median(z))
        elif mode == 'none-kept':
            threshold = 1e9
        elif mode == 'all-kept':
            threshold = -1e9
        elif mode == 'one-kept':
            threshold = float(np.max(z)) - 1e-9
        else:
            for e in events:
                e['labels']['cascade_z'] = float(rng.uniform(1, 2))
            events[0]['labels']['cascade_z'] = 0.
            threshold = 0.5
        kept = [i for i, e in enumerate(events)
                if e['labels']['cascade_z'] > threshold]
        path = os.path.join(scratch(), 'd03_{}.hdf5'.format(
            rng.randint(2**31)))
        ev.write_hdf(path, events, tables=tables)
        handler = ev.make_handler(ev.handler_config(
            data=settings, misc=dict(
                seed_names=seeds, seed_parameter_names=['a', 'b'],
                float_precision='float64'),
            misc_module='seed_loader.SeedLoaderMiscModule',
            constraints=[['LabelsDeepLearning', 'cascade_z', '>',
                          threshold]]))
        num, data = m.call('read-hdf', handler.get_data_from_hdf, path)
        os.remove(path)
        m.event('filtered_files')
        m.event('events_dropped', len(events) - len(kept))
        m.event('events_kept', len(kept))
        m.saw('mask', (mode, len(events), tuple(kept)))
        if not kept:
            m.event('all_dropped')
            m.check(num is None and data is None, 'all-dropped',
                    'a file without passing events was not declined',
                    observed=num)
            continue
        if not m.check(num is not None, 'file-declined', mode=mode):
            continue
        ke = [events[i] for i in kept]
        d04.verify(m, 'filter-' + mode, ke, settings, num, data,
                   handler.tensors)
        get = {t: data[i] for i, t in enumerate(handler.tensors.names)}
        want = np.array([[e['labels'][l] for l in ev.LABELS] for e in ke],
                        dtype=np.float32)
        m.array_equal(get['x_parameters'], want, 'filtered-labels')
        for s in seeds:
            m.array_equal(get[s], np.array([tables[s][1][i] for i in kept]),
                          'filtered-seeds', seed=s)


def cases(tier):
    return [
        Case('structure', case_structure, reps=2, reps_thorough=100, n=60),
        Case('filter', case_filter, reps=3, reps_thorough=100, n=5),
    ]
