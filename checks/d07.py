import os

import numpy as np

from vh.core import Case, scratch
from vh import events as ev

RULE = ('generated seed tables (random column order, missing columns, 1-5 '
        'seeds in random order, I3Particle and map frames) are read by the '
        'seed loader and each tensor entry is compared with the table value '
        'or fill value; distinct = (seed list, parameter list, missing)')
ASSUMPTIONS = ['a table has one row per event in the event order of the file']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'values_compared': 500, 'missing_first_parameter': 3,
           'several_seeds': 10, 'filled_values': 50, 'particle_frames': 10}

PARAMS = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith',
          'cascade_azimuth', 'cascade_energy', 'cascade_t', 'aux']


def run(m, rng):
    n_seeds = int(rng.choice([1, 2, 3, 5]))
    names = ['seed_{}'.format(c) for c in rng.permutation(
        list('qzaMB7'))[:n_seeds]]
    k = int(rng.choice([1, 2, 5, 8]))
    params = [PARAMS[i] for i in rng.permutation(len(PARAMS))[:k]]
    events = ev.make_events(rng, int(rng.choice([1, 2, 9])), n_pulses=1)
    use_default = bool(rng.rand() < 0.6)
    fill = {p: float(rng.normal()) for p in params if rng.rand() < 0.5}
    default = float(rng.choice([0., -7.25])) if use_default else None
    tables, truth = {}, {}
    for s in names:
        cols = [p for p in PARAMS if p not in params or rng.rand() < 0.8
                or (p not in fill and not use_default)]
        if not cols:
            cols = ['aux9']
        cols = [cols[i] for i in rng.permutation(len(cols))]
        rows = [[float(v) for v in rng.normal(size=len(cols))]
                for _ in events]
        tables[s] = (cols, rows)
        truth[s] = np.array([[
            r[cols.index(p)] if p in cols else fill.get(p, default)
            for p in params] for r in rows])
        m.event('filled_values', sum(p not in cols for p in params)
                * len(events))
        m.event('missing_first_parameter', int(params[0] not in cols))
    m.event('several_seeds', int(n_seeds > 1))
    prec = str(rng.choice(['float32', 'float64']))
    path = os.path.join(scratch(), 'd07.hdf5')
    ev.write_hdf(path, events, tables=tables)
    settings = dict(seed_names=list(names), seed_parameter_names=list(params),
                    float_precision=prec)
    if default is not None:
        settings['missing_value'] = default
    if fill:
        settings['missing_value_dict'] = dict(fill)
    handler = ev.make_handler(ev.handler_config(
        misc=settings, misc_module='seed_loader.SeedLoaderMiscModule'))
    num, data = m.call('read-hdf', handler.get_data_from_hdf, path)
    os.remove(path)
    where = dict(settings=settings, columns={s: tables[s][0] for s in names})
    m.saw('config', (tuple(names), tuple(params), tuple(
        tuple(sorted(tables[s][0])) for s in names)))
    if not m.check(num is not None, 'file-declined', **where):
        return
    m.equal(int(num), len(events), 'num-events')
    for s in names:
        if not m.check(s in handler.tensors.names, 'seed-tensor-missing',
                       seed=s):
            continue
        got = np.asarray(data[handler.tensors.get_index(s)])
        m.event('values_compared', got.size)
        m.array_equal(got, truth[s].astype(prec), 'seed-values',
                      check_dtype=True, seed=s, **where)
    m.sample(**where)
    for i, e in enumerate(events[:3]):
        frame = ev.make_frame(e, i, tables=tables)
        num, data = m.call('read-frame', handler.get_data_from_frame, frame)
        if not m.check(num is not None, 'frame-declined', **where):
            continue
        for s in names:
            got = np.asarray(data[handler.tensors.get_index(s)])
            m.event('values_compared', got.size)
            m.array_equal(got, truth[s][i:i + 1].astype(prec), 'frame-seed',
                          check_dtype=True, seed=s, **where)


def case_random(m, rng, n):
    for _ in range(n):
        run(m, rng)


def case_particle(m, rng, n):
    from icecube import dataclasses
    for _ in range(n):
        names = ['SeedP2', 'SeedP1'][:rng.randint(1, 3)]
        params = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time',
                  'unknown_thing']
        params = [params[i] for i in rng.permutation(8)[:rng.randint(1, 9)]]
        handler = ev.make_handler(ev.handler_config(
            misc=dict(seed_names=list(names), seed_parameter_names=params,
                      float_precision='float64',
                      missing_value_dict={'unknown_thing': 4.5}),
            misc_module='seed_loader.SeedLoaderMiscModule'))
        frame = ev.make_frame(ev.make_event(rng, (1, 2, 3, 4)), 0)
        truth = {}
        for s in names:
            p = dataclasses.I3Particle()
            v = {q: float(rng.uniform(0.1, 3)) for q in
                 ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']}
            p.pos = dataclasses.I3Position(v['x'], v['y'], v['z'])
            p.dir = dataclasses.I3Direction(v['zenith'], v['azimuth'])
            p.energy, p.time = v['energy'], v['time']
            v['unknown_thing'] = 4.5
            frame[s] = p
            truth[s] = [v[q] for q in params]
        num, data = m.call('read-frame', handler.get_data_from_frame, frame)
        m.event('particle_frames')
        if m.check(num is not None, 'frame-declined', params=params):
            for s in names:
                m.close(data[handler.tensors.get_index(s)], [truth[s]],
                        'particle-seed', rtol=1e-12, seed=s, params=params)


def case_refusal(m, rng):
    """A seed without a required parameter is not silently filled."""
    events = ev.make_events(rng, 2, n_pulses=1)
    for settings, tables in [
            (dict(seed_names=['A'], seed_parameter_names=['a', 'b']),
             {'A': (['a'], [[1.], [2.]])}),
            (dict(seed_names=['A', 'B'], seed_parameter_names=['a']),
             {'A': (['a'], [[1.], [2.]])}),
            (dict(seed_names=['A'], seed_parameter_names=['b', 'a'],
                  missing_value_dict={'c': 1.}),
             {'A': (['a'], [[1.], [2.]])})]:
        handler = ev.make_handler(ev.handler_config(
            misc=dict(float_precision='float64', **settings),
            misc_module='seed_loader.SeedLoaderMiscModule'))
        path = os.path.join(scratch(), 'd07r.hdf5')
        ev.write_hdf(path, events, tables=tables)
        num, data = m.call('read-hdf', handler.get_data_from_hdf, path)
        m.check(num is None and data is None, 'missing-seed-not-declined',
                settings=settings, observed=data)
        frame = ev.make_frame(events[0], 0, tables=tables)
        num, data = m.call('read-frame', handler.get_data_from_frame, frame)
        m.check(num is None and data is None, 'missing-seed-not-declined',
                settings=settings, observed=data)
        os.remove(path)


def cases(tier):
    return [Case('random', case_random, reps=5, reps_thorough=150, n=8),
            Case('particle', case_particle, reps=2, reps_thorough=50, n=10),
            Case('refusal', case_refusal, reps=1, reps_thorough=2)]
