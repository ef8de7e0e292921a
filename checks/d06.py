import math
import os

import numpy as np

import d05
from vh.core import Case, scratch
from vh import events as ev

RULE = ('generated label tables (columns in random order, extra columns, '
        'extreme directions and energies) are read from files and frames by '
        'every label module; each parameter column is compared with the '
        'labelled quantity of its name and the shower-maximum shift with an '
        'independent scalar computation; distinct = (module, settings)')
ASSUMPTIONS = ['shower maximum: length = clip((a - 1) / b * X0, 0), '
               'a = 2.01849 + 0.63176 ln(E), b = X0 / 0.63207, '
               'X0 = 0.358 / 0.9216 m (I3SimConstants, electrons)']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'events_checked': 150, 'shifted_events': 40,
           'zero_length_shifts': 2, 'snowstorm_columns': 20,
           'additional_columns': 5, 'frames': 50}

C = 0.299792458


def shower_length(energy):
    x0 = 0.358 / 0.9216
    a = 2.01849 + 0.63176 * math.log(energy + 1e-6)
    b = x0 / 0.63207
    return max(0., (a - 1.) / b * x0)


def direction(zenith, azimuth):
    return (-math.sin(zenith) * math.cos(azimuth),
            -math.sin(zenith) * math.sin(azimuth), -math.cos(zenith))


def expected(m, kind, settings, event, table_row, snow_len):
    """List of (name, value) in documented parameter order."""
    lab = event['labels']
    if kind in ('cascades', 'snowstorm'):
        names = list(ev.LABELS)
        val = {n: lab[n] for n in names}
        if settings['shift_cascade_vertex']:
            length = shower_length(lab['cascade_energy'])
            m.event('shifted_events')
            m.event('zero_length_shifts', int(length == 0))
            d = direction(lab['cascade_zenith'], lab['cascade_azimuth'])
            for n, dd in zip(['cascade_x', 'cascade_y', 'cascade_z'], d):
                val[n] += dd * length
            val['cascade_t'] += length / C
        out = [(n, val[n]) for n in names]
        for n in settings.get('additional_labels') or []:
            m.event('additional_columns')
            out.append((n, lab[n]))
    elif kind == 'tracks':
        names = d05.track_columns(settings['num_cascades'])
        val = dict(table_row)
        if settings['shift_cascade_vertex'] and settings['num_cascades']:
            m.event('shifted_events')
            length = shower_length(val['cascade_0000_energy'])
            m.event('zero_length_shifts', int(length == 0))
            d = direction(val['zenith'], val['azimuth'])
            for n, dd in zip('xyz', d):
                val['track_anchor_' + n] += dd * length
            val['track_anchor_time'] += length / C
            val['track_distance_start'] -= length
            val['track_distance_end'] -= length
            for i in range(1, settings['num_cascades']):
                c = 'cascade_{:04d}_'.format(i)
                val[c + 'distance'] += shower_length(
                    val[c + 'energy']) - length
        out = [(n, val[n]) for n in names]
    elif kind == 'segment':
        val = dict(table_row)
        out = [(n, val[n]) for n in [
            'track_anchor_x', 'track_anchor_y', 'track_anchor_z', 'zenith',
            'azimuth', 'track_energy', 'track_anchor_time',
            'track_distance_end', 'track_stochasticity']]
    else:
        names = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith',
                 'cascade_azimuth', 'cascade_t']
        out = [(n, lab[n]) for n in names]
        k = settings['num_cascades']
        out += [('energy_{}'.format(i), max(100., lab['cascade_energy'] / k))
                for i in range(k)]
    if kind in ('snowstorm', 'tracks', 'segment'):
        for i in range(snow_len):
            m.event('snowstorm_columns')
            out.append(('snowstorm_{}'.format(i), 1. if
                        settings['snowstorm_key'] is None else
                        event['snowstorm'][i]))
    return out


def extreme(rng, events):
    for e in events:
        lab = e['labels']
        r = rng.rand()
        if r < 0.2:
            lab['cascade_zenith'] = float(rng.choice([0., np.pi, np.pi / 2]))
        if rng.rand() < 0.2:
            lab['cascade_azimuth'] = float(rng.choice(
                [0., np.pi, 1.5 * np.pi]))
        if rng.rand() < 0.3:
            lab['cascade_energy'] = float(rng.choice(
                [0.01, 0.1, 0.2, 1., 1e9]))
        lab['cascade_t'] = float(rng.uniform(-1e4, 2e4))


def run(m, rng, kind):
    events = ev.make_events(rng, int(rng.choice([1, 2, 7, 20])), n_pulses=1)
    extreme(rng, events)
    n_snow = int(rng.choice([0, 1, 4, 12]))
    extra = ['length', 'VisibleInertiaX', 'aux', 'aux2'][:rng.randint(5)]
    for e in events:
        e['snowstorm'] = [float(v) for v in rng.uniform(.8, 1.2, n_snow)]
        for x in extra:
            e['labels'][x] = float(rng.normal())
        # column order of the label table is arbitrary
        names = list(e['labels'])
    perm = rng.permutation(len(names))
    for e in events:
        e['labels'] = {names[p]: e['labels'][names[p]] for p in perm}
    module, settings, tables = d05.label_config(rng, kind, events)
    if kind in ('cascades', 'snowstorm', 'muon') and rng.rand() < 0.5:
        # labels under another key than the default one, which holds
        # different values
        settings['label_key'] = 'MyLabels'
        cols = list(events[0]['labels'])
        tables['MyLabels'] = (cols, [[e['labels'][c] for c in cols]
                                     for e in events])
    key = 'SnowstormParameters'
    if n_snow and settings.get('snowstorm_key') is not None and \
            rng.rand() < 0.5 and 'snowstorm_key' in settings:
        key = settings['snowstorm_key'] = 'MySnowstorm'
    tname = settings.get('label_key')
    rows = [None] * len(events)
    if kind in ('tracks', 'segment'):
        cols, data = tables[tname]
        rows = [list(zip(cols, r)) for r in data]
    path = os.path.join(scratch(), 'd06.hdf5')
    file_events = events
    if tname == 'MyLabels':
        file_events = []
        for e in events:
            other = dict(e)
            other['labels'] = {k: v + 5. for k, v in e['labels'].items()}
            file_events.append(other)
    ev.write_hdf(path, file_events, tables=tables, snowstorm_key=key)
    handler = ev.make_handler(ev.handler_config(label=settings,
                                                label_module=module))
    tensor = handler.label_tensors.list[0]
    num, data = m.call('read-hdf', handler.label_module.get_data_from_hdf,
                       path)
    os.remove(path)
    if not m.check(num is not None, 'file-declined', module=kind,
                   settings=settings):
        return
    want = [expected(m, kind, settings, e, r, n_snow)
            for e, r in zip(events, rows)]
    names = [n for n, _ in want[0]]
    values = np.array([[v for _, v in w] for w in want])
    dtype = settings['float_precision']
    rtol = 2e-6 if dtype == 'float32' else 1e-10
    got = np.asarray(data[0])
    m.equal(int(num), len(events), 'num-events')
    m.equal(str(got.dtype), dtype, 'dtype')
    m.equal(list(tensor.shape), [None, len(names)], 'declared-shape',
            module=kind, settings=settings)
    m.saw('config', (kind, settings, len(events)))
    if m.equal(got.shape, values.shape, 'shape', module=kind):
        for j, name in enumerate(names):
            m.close(got[:, j], values[:, j], 'label-column', rtol=rtol,
                    atol=2e-3 if dtype == 'float32' and 'time' in name
                    else 1e-4 if dtype == 'float32' else 1e-8,
                    parameter=name, module=kind, settings=settings)
    m.event('events_checked', len(events))
    # logarithm settings have one entry per parameter
    m.equal(len(tensor.trafo_log), len(names), 'trafo-log-length',
            module=kind, settings=settings)
    log = settings['trafo_log']
    if log is None:
        m.check(not any(tensor.trafo_log), 'trafo-log')
    elif isinstance(log, bool) and kind in ('cascades', 'muon'):
        m.equal(list(tensor.trafo_log), [log] * len(names), 'trafo-log')
    elif isinstance(log, bool):
        n = len(names) - n_snow
        m.equal(list(tensor.trafo_log), [log] * n + [False] * n_snow,
                'trafo-log', module=kind)
    else:
        m.equal(list(tensor.trafo_log)[:len(log)], list(log), 'trafo-log')
        m.check(not any(list(tensor.trafo_log)[len(log):]), 'trafo-log')
    if kind == 'tracks':
        m.equal(list(handler.label_module.data['parameter_names']),
                d05.track_columns(settings['num_cascades']),
                'parameter-names')
    for i, e in enumerate(events):
        frame = ev.make_frame(file_events[i], i, tables=tables,
                              snowstorm_key=key)
        before = {k: dict(frame[k]) for k in frame.keys()
                  if isinstance(frame[k], dict) and k != 'Pulses'}
        # labels may be stored as arrays in the frame object
        num, d = m.call('read-frame',
                        handler.label_module.get_data_from_frame, frame)
        if not m.check(num is not None, 'frame-declined', module=kind):
            continue
        m.event('frames')
        m.close(np.asarray(d[0]), values[i:i + 1], 'frame-label', rtol=rtol,
                atol=2e-3 if dtype == 'float32' else 1e-8, module=kind,
                settings=settings)
        for k in before:
            m.check(dict(frame[k]) == before[k], 'input-modified', key=k)


def case_kind(m, rng, kind, n):
    for _ in range(n):
        run(m, rng, kind)


def case_refusals(m, rng):
    """Files without the requested label are declined, not mislabelled."""
    events = ev.make_events(rng, 3, n_pulses=1)
    for e in events:
        e['snowstorm'] = [1., 2., 3.]
    for kind, change in [
            ('cascades', dict(label_key='Nope')),
            ('snowstorm', dict(additional_labels=['not_there'])),
            ('snowstorm', dict(num_snowstorm_params=4)),
            ('snowstorm', dict(num_snowstorm_params=2)),
            ('snowstorm', dict(snowstorm_key='Nope'))]:
        module, settings, tables = d05.label_config(rng, kind, events)
        settings['snowstorm_key'] = 'SnowstormParameters'
        if kind == 'cascades':
            settings.pop('snowstorm_key')
        settings.update(change)
        path = os.path.join(scratch(), 'd06r.hdf5')
        ev.write_hdf(path, events, tables=tables)
        handler = ev.make_handler(ev.handler_config(label=settings,
                                                    label_module=module))
        num, data = m.call('read-hdf',
                           handler.label_module.get_data_from_hdf, path)
        m.check(num is None and data is None, 'missing-label-not-declined',
                change=change, observed=data)
        frame = ev.make_frame(events[0], 0, tables=tables)
        num, data = m.call('read-frame',
                           handler.label_module.get_data_from_frame, frame)
        m.check(num is None and data is None, 'missing-label-not-declined',
                change=change, observed=data)
        os.remove(path)


def cases(tier):
    return [Case(k, case_kind, reps=3, reps_thorough=100, kind=k, n=3)
            for k in d05.LABEL_MODULES] + [
        Case('refusals', case_refusals, reps=1, reps_thorough=5)]
