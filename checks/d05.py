import os

import numpy as np

import d04
from vh.core import Case, scratch
from vh import events as ev

RULE = ('the same generated events are written to an HDF file and to '
        'I3Frames (plain pulse map, mask or union) and read with the same '
        'handler; every tensor, vector row and filter decision of the frame '
        'is compared with the event\'s part of the file batch; distinct = '
        '(configuration, event shape) pairs')
ASSUMPTIONS = [
    'icecube is not installed; frames are stub objects with the attribute '
    'and mapping interface of I3Frame and dataclasses used by the readers']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {"frames_compared": 30, 'frames_filtered': 3,
           'empty_events': 3, 'frames_without_exclusions': 3}

LABEL_MODULES = {
    'cascades': 'cascades.CascadeGeneratorLabelModule',
    'snowstorm': 'snowstorm_cascades.SnowstormCascadeGeneratorLabelModule',
    'tracks': 'snowstorm_tracks.SnowstormTrackGeneratorLabelModule',
    'segment':
    'snowstorm_track_segment.SnowstormTrackSegmentGeneratorLabelModule',
    'muon': 'muons.DummyMuonFixedCascadesLabelModule',
}
TRACK = ['zenith', 'azimuth', 'track_anchor_x', 'track_anchor_y',
         'track_anchor_z', 'track_anchor_time', 'track_energy',
         'track_distance_start', 'track_distance_end', 'track_stochasticity']


def track_columns(num_cascades):
    names = list(TRACK)
    if num_cascades >= 1:
        names.append('cascade_0000_energy')
    for i in range(1, num_cascades):
        names += ['cascade_{:04d}_energy'.format(i),
                  'cascade_{:04d}_distance'.format(i)]
    return names


def track_rows(rng, events, names, segment=False):
    rows = []
    for _ in events:
        row = []
        for n in names:
            if n == 'zenith':
                v = np.arccos(rng.uniform(-1, 1))
            elif n == 'azimuth':
                v = rng.uniform(0, 2 * np.pi)
            elif n.endswith('energy'):
                v = 10**rng.uniform(-1.5, 6)
            elif n == 'track_distance_start' and segment:
                v = 0.
            else:
                v = rng.uniform(-500, 500)
            row.append(float(v))
        rows.append(row)
    return rows


def label_config(rng, kind, events):
    """(module, settings, tables) of a label module."""
    names = list(events[0]['labels'])
    extra = [n for n in names if n not in ev.LABELS]
    n_snow = len(events[0]['snowstorm'])
    prec = str(rng.choice(['float32', 'float64']))
    shift = bool(rng.rand() < 0.5)
    key = None if (n_snow and rng.rand() < 0.2) else 'SnowstormParameters'
    tables = {}
    if kind == 'cascades':
        settings = dict(shift_cascade_vertex=shift, float_precision=prec,
                        trafo_log=[False] * 5 + [True, False])
    elif kind == 'snowstorm':
        perm = list(np.array(extra)[rng.permutation(len(extra))])
        settings = dict(shift_cascade_vertex=shift, float_precision=prec,
                        trafo_log=rng.choice([None, False, True]),
                        additional_labels=[str(p) for p in perm],
                        snowstorm_key=key, num_snowstorm_params=n_snow)
        if settings['trafo_log'] is not None:
            settings['trafo_log'] = bool(settings['trafo_log'])
    elif kind == 'tracks':
        num = int(rng.choice([0, 1, 2, 5]))
        cols = track_columns(num)
        # columns in a different order than the parameters
        perm = rng.permutation(len(cols))
        names = [cols[p] for p in perm]
        tables['TrackLabels'] = (names, track_rows(rng, events, names))
        settings = dict(shift_cascade_vertex=shift, float_precision=prec,
                        trafo_log=False, num_cascades=num,
                        label_key='TrackLabels', snowstorm_key=key,
                        num_snowstorm_params=n_snow)
    elif kind == 'segment':
        perm = rng.permutation(len(TRACK))
        names = [TRACK[p] for p in perm]
        tables['SegLabels'] = (names, track_rows(rng, events, names, True))
        settings = dict(float_precision=prec, trafo_log=False,
                        label_key='SegLabels', snowstorm_key=key,
                        num_snowstorm_params=n_snow)
    else:
        settings = dict(float_precision=prec, trafo_log=False,
                        num_cascades=int(rng.choice([1, 3])))
    return LABEL_MODULES[kind], settings, tables


def compare_event(m, handler, batch, position, data, where):
    """The frame's tensors equal event `position` of the file batch."""
    for i, tensor in enumerate(handler.tensors.list):
        a, b = batch[i], data[i]
        if not tensor.exists:
            m.check(np.ndim(b) == 0, 'missing-tensor', tensor=tensor.name,
                    **where)
            continue
        a, b = np.asarray(a), np.asarray(b)
        m.equal(str(b.dtype), str(a.dtype), 'dtype-differs',
                tensor=tensor.name, **where)
        if tensor.vector_info is None:
            a = a[position:position + 1]
        elif tensor.vector_info['type'] == 'index':
            if not m.check(a.ndim == 2 and b.ndim == 2, 'vector-rank',
                           tensor=tensor.name, observed=(a.shape, b.shape),
                           **where):
                continue
            a = a[a[:, 0] == position]
            m.check(bool(np.all(b[:, 0] == 0)), 'frame-event-index',
                    tensor=tensor.name, **where)
            a, b = a[:, 1:], b[:, 1:]
        else:
            ref = np.asarray(batch[handler.tensors.get_index(
                tensor.vector_info['reference'])])
            a = a[ref[:, 0] == position]
        if a.dtype.kind == 'f' and tensor.type == 'label':
            m.close(b, a, 'frame-vs-hdf', rtol=3e-6, atol=1e-6,
                    tensor=tensor.name, **where)
        else:
            m.array_equal(b, a, 'frame-vs-hdf', tensor=tensor.name, **where)


def run(m, rng, kind):
    events = d04.random_events(rng, 6)
    n_snow = int(rng.choice([0, 2, 5]))
    extra = ['length', 'VisibleInertiaX', 'aux'][:rng.randint(4)]
    for e in events:
        e['snowstorm'] = [float(v) for v in rng.uniform(.8, 1.2, n_snow)]
        for x in extra:
            e['labels'][x] = float(rng.normal())
    settings = d04.random_settings(rng)
    module, label, tables = label_config(rng, kind, events)
    seeds = [['S1'], ['Zz', 'Aa'], ['b', 'c', 'a']][rng.randint(3)]
    for s in seeds:
        tables[s] = (['u', 'v'], [[float(x) for x in rng.normal(size=2)]
                                  for _ in events])
    misc = dict(seed_names=list(seeds), seed_parameter_names=['v', 'w', 'u'],
                float_precision='float64', missing_value=3.5)
    op = str(rng.choice(['<', '>', '<=', '>=']))
    z = [e['labels']['cascade_z'] for e in events]
    cut = float(np.median(z)) if rng.rand() < 0.7 else (
        -1e9 if op[0] == '>' else 1e9)
    constraints = [['LabelsDeepLearning', 'cascade_z', op, cut]]
    if n_snow and rng.rand() < 0.5:
        constraints.append(['SnowstormParameters', n_snow - 1, '<=', 1.1])
    if rng.rand() < 0.3:
        constraints.append([seeds[-1], 'u', '<', 0.5])
    has_doms, has_tws = bool(rng.rand() < .75), bool(rng.rand() < .75)
    path = os.path.join(scratch(), 'd05.hdf5')
    ev.write_hdf(path, events, tables=tables, write_doms=has_doms,
                 write_tws=has_tws)
    handler = ev.make_handler(ev.handler_config(
        data=settings, label=label, label_module=module, misc=misc,
        misc_module='seed_loader.SeedLoaderMiscModule',
        constraints=constraints))
    num, batch = m.call('read-hdf', handler.get_data_from_hdf, path)
    os.remove(path)
    n_file = 0 if num is None else int(num)
    position = 0
    style = str(rng.choice(['map', 'mask', 'union']))
    where = dict(label_module=kind, settings=settings, style=style)
    for i, e in enumerate(events):
        frame = ev.make_frame(e, i, tables=tables, write_doms=has_doms,
                              write_tws=has_tws, kind=style)
        before = sorted(frame.keys())
        n, data = m.call('read-frame', handler.get_data_from_frame, frame)
        n2, data2 = m.call('create-frame', handler.create_data_from_frame,
                           frame)
        m.equal(n2, n, 'create-vs-get')
        m.equal(sorted(frame.keys()), before, 'frame-modified')
        m.event('empty_events', int(not [p for p in e['pulses']
                                         if p[1] <= 60]))
        m.event('frames_without_exclusions', int(not has_tws))
        m.saw('event-shape', (kind, tuple(sorted(map(str, settings.items()))),
                              len(e['pulses'])))
        if n is None:
            m.event('frames_filtered')
            continue
        m.equal(int(n), 1, 'frame-num-events')
        if not m.check(position < n_file, 'filter-differs',
                       'frame passes the filter but the event of the file '
                       'does not', event=i, constraints=constraints,
                       **where):
            return
        m.event('frames_compared')
        compare_event(m, handler, batch, position, data, where)
        for t, a, b in zip(handler.tensors.list, data2, data):
            if t.exists:
                m.array_equal(a, b, 'create-vs-get', tensor=t.name)
        position += 1
    m.equal(position, n_file, 'filter-differs', 'number of passing frames '
            'and events of the file differ', constraints=constraints, **where)
    m.sample(kind=kind, settings=settings, constraints=constraints,
             events=len(events), kept=n_file)


def case_kind(m, rng, kind, n):
    for _ in range(n):
        run(m, rng, kind)


def cases(tier):
    return [Case(k, case_kind, reps=5, reps_thorough=80, kind=k, n=2)
            for k in LABEL_MODULES]
