import operator
import os

import numpy as np

from vh.core import Case, scratch
from vh import events as ev

RULE = ('random constraint lists over map and vector tables with values on, '
        'just below and just above the thresholds; the kept events of file '
        'and frames are compared with a scalar evaluation of all cuts; '
        'distinct = (operators, kept pattern)')
ASSUMPTIONS = ['values are stored as doubles']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'decisions': 120, 'boundary_decisions': 15, 'kept': 15,
           'dropped': 30, 'frame_decisions': 100}

OPS = {'<': operator.lt, '>': operator.gt, '<=': operator.le,
       '>=': operator.ge, '==': operator.eq}


def run(m, rng):
    n = int(rng.choice([1, 3, 8, 20]))
    events = ev.make_events(rng, n, n_pulses=2)
    for i, e in enumerate(events):
        # recognisable without using the filter
        e['labels']['cascade_x'] = float(i)
        e['snowstorm'] = [float(v) for v in rng.choice(
            [0.9, 1., 1.1], size=4)]
    grid = [-1., np.nextafter(0., -1), 0., np.nextafter(0., 1), 0.5, 2.]
    cols = ['p', 'q', 'r']
    tables = {
        'TabA': (cols, [[float(v) for v in rng.choice(grid, size=3)]
                        for _ in events]),
        'TabB': (cols, [[float(v) for v in rng.choice(grid, size=3)]
                        for _ in events]),
        # vectors of different lengths
        'Vec': ('vector', [[float(v) for v in rng.choice(
            grid, size=int(rng.randint(2, 6)))] for _ in events])}
    constraints = []
    for _ in range(int(rng.choice([1, 1, 2, 4]))):
        op = str(rng.choice(list(OPS)))
        kind = rng.randint(5)
        if kind == 4:
            constraints.append(['Vec', int(rng.randint(2)), op,
                                float(rng.choice(grid))])
        elif kind == 0:
            constraints.append(['SnowstormParameters', int(rng.randint(4)),
                                op, float(rng.choice([0.9, 1., 1.1]))])
        elif kind == 1:
            constraints.append(['LabelsDeepLearning', 'cascade_x', op,
                                float(rng.randint(n))])
        else:
            constraints.append([str(rng.choice(['TabA', 'TabB'])),
                                str(rng.choice(cols)), op,
                                float(rng.choice(grid))])

    def value(i, key, col):
        if key == 'SnowstormParameters':
            return events[i]['snowstorm'][col]
        if key == 'LabelsDeepLearning':
            return events[i]['labels'][col]
        if key == 'Vec':
            return tables[key][1][i][col]
        return tables[key][1][i][cols.index(col)]

    kept = []
    for i in range(n):
        ok = True
        for key, col, op, thr in constraints:
            v = value(i, key, col)
            m.event('boundary_decisions', int(v == thr))
            ok = ok and OPS[op](v, thr)
        if ok:
            kept.append(i)
    path = os.path.join(scratch(), 'd08.hdf5')
    ev.write_hdf(path, events, tables=tables)
    handler = ev.make_handler(ev.handler_config(constraints=constraints))
    num, data = m.call('read-hdf', handler.get_data_from_hdf, path)
    os.remove(path)
    got = []
    if num is not None:
        x = np.asarray(data[handler.tensors.get_index('x_parameters')])
        got = [int(round(float(v))) for v in x[:, 0]]
    m.event('decisions', n)
    m.event('kept', len(kept))
    m.event('dropped', n - len(kept))
    m.saw('decision', (tuple(c[2] for c in constraints), n, tuple(kept)))
    m.equal(got, kept, 'hdf-filter', constraints=constraints)
    for i, e in enumerate(events):
        frame = ev.make_frame(e, i, tables=tables)
        num, _ = m.call('read-frame', handler.get_data_from_frame, frame)
        m.event('frame_decisions')
        m.equal(num is not None, i in kept, 'frame-filter',
                constraints=constraints, event=i)
    m.sample(constraints=constraints, events=n, kept=kept)


def case_random(m, rng, n):
    for _ in range(n):
        run(m, rng)


def case_misuse(m, rng):
    events = ev.make_events(rng, 2, n_pulses=1)
    path = os.path.join(scratch(), 'd08m.hdf5')
    ev.write_hdf(path, events)
    for op in ['=', '!=', '<>', 'lt', '']:
        handler = ev.make_handler(ev.handler_config(constraints=[
            ['LabelsDeepLearning', 'cascade_x', op, 0.]]))
        m.raises(lambda: handler.get_data_from_hdf(path), 'unknown-op')
        m.raises(lambda: handler.get_data_from_frame(
            ev.make_frame(events[0], 0)), 'unknown-op')
    for key, col in [('LabelsDeepLearning', 'nope'), ('Nope', 'x')]:
        handler = ev.make_handler(ev.handler_config(constraints=[
            [key, col, '>', 0.]]))
        m.raises(lambda: handler.get_data_from_hdf(path), 'unknown-column')
        m.raises(lambda: handler.get_data_from_frame(
            ev.make_frame(events[0], 0)), 'unknown-column')
    # no constraints: everything passes
    handler = ev.make_handler(ev.handler_config(constraints=[]))
    m.equal(int(handler.get_data_from_hdf(path)[0]), 2, 'no-constraints')
    # attributes of frame objects that are no mappings
    from icecube import dataclasses
    for energy, want in [(5., True), (3., False)]:
        frame = ev.make_frame(events[0], 0)
        p = dataclasses.I3Particle()
        p.energy = energy
        frame['Particle'] = p
        handler = ev.make_handler(ev.handler_config(constraints=[
            ['Particle', 'energy', '>', 4.]]))
        num, _ = m.call('read-frame', handler.get_data_from_frame, frame)
        m.equal(num is not None, want, 'frame-attribute')
    os.remove(path)


def cases(tier):
    return [Case('random', case_random, reps=9, reps_thorough=150, n=8),
            Case('misuse', case_misuse, reps=1, reps_thorough=1)]
