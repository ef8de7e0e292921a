"""Synthetic events written as HDF files and as I3 frames.

An event is a plain dictionary; the oracles in the checks only use these
dictionaries, never the code under test.
"""
import numpy as np
import pandas as pd

LABELS = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith',
          'cascade_azimuth', 'cascade_energy', 'cascade_t']
ID_COLS = ['Run', 'Event', 'SubEvent', 'SubEventStream']


def make_event(rng, key, n_pulses=None, icetop=0.1, grid=None,
               n_snowstorm=0, exclusions=True, n_tw=None, dyadic=True,
               extra_labels=()):
    if n_pulses is None:
        n_pulses = int(rng.choice([0, 1, 2, 5, 30, 120]))
    # few distinct DOMs such that DOMs see several pulses
    n_doms = max(1, n_pulses // 3)
    doms = np.stack([rng.randint(1, 87, size=n_doms),
                     rng.randint(1, 61, size=n_doms)], axis=1)
    pulses = []
    t0 = rng.uniform(9000, 11000)
    for _ in range(n_pulses):
        s, o = doms[rng.randint(n_doms)]
        if rng.rand() < icetop:
            o = int(rng.randint(61, 65))
        charge = rng.randint(1, 40) / 8. if dyadic else \
            rng.exponential(1.) + 0.05
        pulses.append((int(s), int(o), float(np.round(
            t0 + rng.exponential(500.), 1)), float(charge)))
    # hdf writer: sorted by OM key, in time order
    pulses.sort(key=lambda p: (p[0], p[1], p[2]))
    dom_excl = []
    tws = []
    if exclusions:
        for _ in range(rng.choice([0, 1, 5, 20])):
            if n_pulses and rng.rand() < 0.5:
                p = pulses[rng.randint(len(pulses))]
                dom_excl.append((p[0], p[1]))
            else:
                dom_excl.append((int(rng.randint(1, 87)),
                                 int(rng.randint(1, 65))))
        dom_excl = sorted(set(dom_excl))
        for _ in range(rng.choice([0, 1, 4]) if n_tw is None else n_tw):
            start = float(np.round(t0 + rng.uniform(-100, 800), 1))
            tws.append((int(rng.randint(1, 87)),
                        int(rng.randint(1, 63 if icetop else 61)), start,
                        float(start + np.round(rng.uniform(10, 500), 1))))
        tws.sort()
    labels = {
        'cascade_x': rng.uniform(-500, 500),
        'cascade_y': rng.uniform(-500, 500),
        'cascade_z': rng.uniform(-500, 500),
        'cascade_zenith': float(np.arccos(rng.uniform(-1, 1))),
        'cascade_azimuth': rng.uniform(0, 2 * np.pi),
        'cascade_energy': float(10**rng.uniform(-1, 7)),
        'cascade_t': float(t0),
    }
    for name in extra_labels:
        labels[name] = float(rng.uniform(-3, 3))
    return {
        'key': tuple(int(k) for k in key), 'pulses': pulses,
        'dom_exclusions': dom_excl, 'time_exclusions': tws,
        'labels': labels,
        'snowstorm': [float(v) for v in rng.uniform(0.9, 1.1, n_snowstorm)],
    }


def make_events(rng, n, **kwargs):
    run = int(rng.randint(1, 200000))
    events = []
    for i in range(n):
        # unique ids which differ in any of the four id columns
        key = [run, i // 3, i % 3 if rng.rand() < 2 else 0,
               int(rng.randint(0, 2))]
        events.append(make_event(rng, key, **kwargs))
    return events


def _table(rows, columns, int_cols):
    df = pd.DataFrame(rows, columns=columns)
    for c in columns:
        df[c] = df[c].astype(np.int64 if c in int_cols else np.float64)
    return df


def write_hdf(path, events, pulse_key='Pulses', dom_key='BadDomsList',
              tw_key='TimeExclusions', label_key='LabelsDeepLearning',
              snowstorm_key='SnowstormParameters', tables=None,
              write_doms=True, write_tws=True, rng=None, shuffle=False):
    """Write an HDF file as the IceCube table writer does."""
    rows = []
    for e in events:
        counter = {}
        for s, o, t, q in e['pulses']:
            k = counter.get((s, o), 0)
            counter[(s, o)] = k + 1
            rows.append(list(e['key']) + [1, s, o, 0, k, t, 1.0, q])
    int_cols = ID_COLS + ['exists', 'string', 'om', 'pmt', 'vector_index']
    store = pd.HDFStore(path, 'w')
    try:
        store[pulse_key] = _table(
            rows, ID_COLS + ['exists', 'string', 'om', 'pmt', 'vector_index',
                             'time', 'width', 'charge'], int_cols)
        names = list(events[0]['labels'].keys())
        store['LabelsDeepLearning'] = _table(
            [list(e['key']) + [1] + [e['labels'][k] for k in names]
             for e in events], ID_COLS + ['exists'] + names, int_cols)
        if label_key != 'LabelsDeepLearning':
            store[label_key] = store['LabelsDeepLearning']
        if write_doms:
            store[dom_key] = _table(
                [list(e['key']) + [1, i, s, o, 0] for e in events
                 for i, (s, o) in enumerate(e['dom_exclusions'])],
                ID_COLS + ['exists', 'vector_index', 'string', 'om', 'pmt'],
                int_cols)
        if write_tws:
            store[tw_key] = _table(
                [list(e['key']) + [1, s, o, 0, i, a, b] for e in events
                 for i, (s, o, a, b) in enumerate(e['time_exclusions'])],
                ID_COLS + ['exists', 'string', 'om', 'pmt', 'vector_index',
                           'start', 'stop'], int_cols)
        if events[0]['snowstorm']:
            store[snowstorm_key] = _table(
                [list(e['key']) + [1, i, v] for e in events
                 for i, v in enumerate(e['snowstorm'])],
                ID_COLS + ['exists', 'vector_index', 'item'], int_cols)
        for name, (columns, rows) in (tables or {}).items():
            if columns == 'vector':
                store[name] = _table(
                    [list(e['key']) + [1, i, v] for e, r in zip(events, rows)
                     for i, v in enumerate(r)],
                    ID_COLS + ['exists', 'vector_index', 'item'], int_cols)
            else:
                store[name] = _table(
                    [list(e['key']) + [1] + list(r)
                     for e, r in zip(events, rows)],
                    ID_COLS + ['exists'] + list(columns), int_cols)
    finally:
        store.close()


def make_frame(event, index=0, pulse_key='Pulses', dom_key='BadDomsList',
               tw_key='TimeExclusions', label_key='LabelsDeepLearning',
               snowstorm_key='SnowstormParameters', tables=None,
               write_doms=True, write_tws=True, kind='map'):
    from icecube import dataclasses, icetray
    frame = icetray.I3Frame()
    pulses = dataclasses.I3RecoPulseSeriesMap()
    for s, o, t, q in event['pulses']:
        pulses.setdefault(icetray.OMKey(s, o),
                          dataclasses.I3RecoPulseSeries()).append(
            dataclasses.I3RecoPulse(time=t, charge=q))
    if kind == 'mask':
        # the underlying series holds additional pulses
        noisy = dataclasses.I3RecoPulseSeriesMap()
        keep = {}
        for omkey, series in pulses.items():
            noisy[omkey] = dataclasses.I3RecoPulseSeries(
                list(series) + [dataclasses.I3RecoPulse(1., 99.)])
            keep[omkey] = len(series)
        frame['Raw'] = noisy
        frame[pulse_key] = dataclasses.I3RecoPulseSeriesMapMask(
            'Raw', lambda om, i: i < keep[om])
    elif kind == 'union':
        frame['Raw1'] = pulses
        frame[pulse_key] = dataclasses.I3RecoPulseSeriesMapUnion(['Raw1'])
    else:
        frame[pulse_key] = pulses
    frame['LabelsDeepLearning'] = dataclasses.I3MapStringDouble(
        event['labels'])
    if label_key != 'LabelsDeepLearning':
        frame[label_key] = dataclasses.I3MapStringDouble(event['labels'])
    if write_doms:
        frame[dom_key] = dataclasses.I3VectorOMKey(
            [icetray.OMKey(s, o) for s, o in event['dom_exclusions']])
    if write_tws:
        tws = dataclasses.I3TimeWindowSeriesMap()
        for s, o, a, b in event['time_exclusions']:
            tws.setdefault(icetray.OMKey(s, o),
                           dataclasses.I3TimeWindowSeries()).append(
                dataclasses.I3TimeWindow(a, b))
        frame[tw_key] = tws
    if event['snowstorm']:
        frame[snowstorm_key] = dataclasses.I3VectorDouble(event['snowstorm'])
    for name, (columns, rows) in (tables or {}).items():
        if columns == 'vector':
            frame[name] = dataclasses.I3VectorDouble(rows[index])
        else:
            frame[name] = dataclasses.I3MapStringDouble(
                dict(zip(columns, rows[index])))
    return frame


def data_settings(**kwargs):
    settings = dict(pulse_key='Pulses', dom_exclusions_key='BadDomsList',
                    time_exclusions_key='TimeExclusions',
                    float_precision='float32', add_charge_quantiles=False,
                    discard_pulses_from_excluded_doms=False)
    settings.update(kwargs)
    return settings


def handler_config(data=None, label=None, label_module=None, misc=None,
                   misc_module=None, constraints=None):
    return dict(
        data_handler='modular.ModuleDataHandler',
        data_module='pulse_data.PulseDataModule',
        data_settings=data or data_settings(),
        label_module=label_module or
        'snowstorm_cascades.SnowstormCascadeGeneratorLabelModule',
        label_settings=label or label_settings(),
        weight_module='dummy.DummyWeightModule', weight_settings={},
        misc_module=misc_module or 'dummy.DummyMiscModule',
        misc_settings=misc or {},
        filter_module='dummy.DummyFilterModule' if constraints is None else
        'general_filter.GeneralFilterModule',
        filter_settings={} if constraints is None else
        {'constraints': constraints})


def label_settings(**kwargs):
    settings = dict(shift_cascade_vertex=False,
                    trafo_log=[False, False, False, False, False, True,
                               False],
                    label_key='LabelsDeepLearning',
                    snowstorm_key='SnowstormParameters',
                    num_snowstorm_params=0, float_precision='float32')
    settings.update(kwargs)
    return settings


def make_handler(config):
    from egenerator.data.handler.modular import ModuleDataHandler
    handler = ModuleDataHandler()
    handler.configure(config=config)
    return handler
