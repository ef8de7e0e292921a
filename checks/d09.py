import numpy as np

import d04
import d05
from vh.core import Case
from vh import events as ev

RULE = ('frames with random content (including empty pulse series and '
        'missing exclusion keys) are read with random handler configurations '
        'and every returned tensor is checked against its declaration; '
        'distinct = (configuration, existing tensors, row counts)')
ASSUMPTIONS = ['frames are stub objects (icecube is not installed)']
BUDGET = {'quick': 12, 'thorough': 300}
REQUIRE = {'tensors_checked': 300, 'missing_tensors': 20,
           'empty_pulse_frames': 5, 'tf_tensors': 300}


def run(m, rng, kind):
    import tensorflow as tf
    events = ev.make_events(rng, 1, n_pulses=int(rng.choice([0, 0, 1, 40])),
                            icetop=float(rng.choice([0., 0.3, 1.])))
    e = events[0]
    e['snowstorm'] = [1., 0.9]
    e['labels']['aux'] = 0.5
    settings = d04.random_settings(rng)
    module, label, tables = d05.label_config(rng, kind, events)
    n_seeds = int(rng.choice([0, 1, 2]))
    seeds = ['Zseed', 'Aseed'][:n_seeds]
    for s in seeds:
        tables[s] = (['u', 'v'], [[1., 2.]])
    handler = ev.make_handler(ev.handler_config(
        data=settings, label=label, label_module=module,
        misc=dict(seed_names=seeds, seed_parameter_names=['v', 'u'],
                  float_precision='float64') if seeds else None,
        misc_module='seed_loader.SeedLoaderMiscModule' if seeds
        else None))
    frame = ev.make_frame(
        e, 0, tables=tables, write_doms=bool(rng.rand() < .7),
        write_tws=bool(rng.rand() < .7),
        kind=str(rng.choice(['map', 'mask', 'union'])))
    m.event('empty_pulse_frames', int(not e['pulses']))
    num, data = m.call('read-frame', handler.get_data_from_frame, frame)
    num2, created = m.call('create-frame', handler.create_data_from_frame,
                           frame)
    tf_data = m.call('read-tensors', handler.get_tensor_from_frame, frame)
    tf_created = m.call('convert', handler.convert_data_to_tensor, created)
    where = dict(label_module=kind, settings=settings)
    m.equal(int(num), 1, 'num-events', **where)
    # registration order: data, label, weight, misc
    tensors = handler.tensors.list
    want_order = [t.name for l in [
        handler.data_tensors, handler.label_tensors, handler.weight_tensors,
        handler.misc_tensors] for t in l.list]
    m.equal(sorted(handler.tensors.names), sorted(want_order),
            'registered-tensors')
    for result in [data, tf_data, created, tf_created]:
        m.equal(len(result), len(tensors), 'tuple-length', **where)
    m.saw('config', (kind, tuple(sorted(map(str, settings.items()))),
                     tuple(np.shape(d) for d in data)))
    for i, t in enumerate(tensors):
        m.event('tensors_checked')
        value = data[i]
        if not t.exists:
            m.event('missing_tensors')
            for v in [value, tf_data[i], tf_created[i]]:
                m.check(np.ndim(v) == 0 and v is not None, 'missing-scalar',
                        tensor=t.name, observed=v)
                if v is not None:
                    m.equal(str(np.asarray(v).dtype),
                            str(np.dtype(t.dtype)), 'missing-dtype',
                            tensor=t.name)
            continue
        arr = np.asarray(value)
        m.check(arr.ndim == len(t.shape) and all(
            s is None or s == a for s, a in zip(t.shape, arr.shape)),
            'shape', 'declared {} got {}'.format(t.shape, arr.shape),
            tensor=t.name, **where)
        m.equal(str(arr.dtype), str(np.dtype(t.dtype)), 'dtype',
                tensor=t.name, **where)
        if t.vector_info is None:
            m.equal(arr.shape[0], 1, 'batch-dimension', tensor=t.name)
        else:
            ref = np.asarray(data[handler.tensors.get_index(
                t.vector_info['reference'])])
            m.equal(len(arr), len(ref), 'vector-length', tensor=t.name)
        for name, other in [('tf', tf_data[i]), ('tf-created',
                                                 tf_created[i])]:
            m.event('tf_tensors')
            m.check(tf.is_tensor(other), 'not-a-tensor', tensor=t.name)
            m.array_equal(np.asarray(other), arr, 'tensor-values',
                          check_dtype=True, tensor=t.name, source=name,
                          **where)
    # the signature which functions are compiled with accepts the tensors
    for spec, value, t in zip(handler.get_data_set_signature(), tf_data,
                              tensors):
        ok = spec.is_compatible_with(tf.convert_to_tensor(value))
        m.check(ok, 'signature', 'tensor does not match the signature',
                tensor=t.name, spec=spec, value=value)
    m.sample(kind=kind, settings=settings, shapes=[np.shape(d)
                                                   for d in data])


def case_kind(m, rng, kind, n):
    for _ in range(n):
        run(m, rng, kind)


def cases(tier):
    return [Case(k, case_kind, reps=4, reps_thorough=100, kind=k, n=4)
            for k in d05.LABEL_MODULES]
