import functools
import os
import shutil
import tempfile

import numpy as np

from vh.core import Case, scratch
from vh import array_handler as ah
from vh import events as ev

RULE = ('random data sets (constant columns, large offsets, many scales) are '
        'fed to the transformer in several random batch splits and the '
        'stored moments compared with two-pass float64 moments; saving and '
        'loading is bit-compared; distinct = (shapes, logs, axes, splits)')
ASSUMPTIONS = ['trafo_batch_axis is 0 (the only value any module uses); '
               'trafo_reduce_axes count the axes of the statistics array, '
               'i.e. without the batch axis',
               'rounding: relative to the spread plus 1e-9 of the offset']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'statistics_compared': 60, 'constant_columns': 10,
           'save_load': 10, 'split_pairs': 10}


def log_part(x, log):
    x = np.array(x, dtype=np.float64)
    if log is None:
        return x
    for i, l in enumerate(log):
        if l:
            x[..., i] = np.log(1. + x[..., i])
    return x


def two_pass(x, axes):
    mean = np.mean(x, axis=0, dtype=np.longdouble)
    std = np.sqrt(np.mean((x - mean)**2, axis=0, dtype=np.longdouble))
    if axes:
        mean = np.mean(mean, axis=tuple(axes), keepdims=True)
        std = np.mean(std, axis=tuple(axes), keepdims=True)
    return np.asarray(mean, float), np.asarray(std, float)


def make_problem(rng, key):
    n = int(rng.choice([1, 2, 7, 40, 300]))
    shapes = [([None, int(rng.choice([1, 3, 8]))], ()),
              ([None, 4, 3, 1], ((0, 1), (1, 2), (0, 1, 2), ())[
                  rng.randint(4)]),
              ([None, 5, 2], ((0,), (1,), ())[rng.randint(3)])]
    tensors, arrays = [], {}
    for k, (shape, axes) in enumerate(shapes):
        name = 'tensor_{}'.format(k)
        dim = shape[-1]
        kind = rng.randint(4)
        if kind == 0:
            log = None
        elif kind == 1:
            log = bool(rng.rand() < 0.6)
        else:
            log = [bool(b) for b in rng.rand(dim) < 0.5]
        dtype = str(rng.choice(['float32', 'float64']))
        scale = 10**rng.uniform(-3, 4, size=dim)
        offset = rng.choice([0., 1., 1e4], size=dim)
        x = rng.uniform(0, 1, size=[n] + shape[1:]) * scale + offset
        if rng.rand() < 0.4:
            col = rng.randint(dim)
            x[..., col] = float(rng.choice([0., 1., 17.5]))
        tensors.append(dict(name=name, shape=shape, tensor_type='data',
                            dtype=dtype, trafo=bool(k == 0 or
                                                    rng.rand() < .8),
                            trafo_log=log, trafo_reduce_axes=axes))
        arrays[name] = x.astype(dtype)
    tensors.append(dict(name='absent', shape=[None, 2], tensor_type='data',
                        dtype='float32', trafo=True, exists=False))
    ah.STORE[key] = arrays
    return n, tensors, arrays


def random_split(rng, n):
    out = []
    left = n
    while left:
        k = int(rng.randint(1, left + 1)) if rng.rand() < .7 else min(left, 1)
        out.append(k)
        left -= k
    return out


def build(key, tensors, splits, prec):
    from egenerator.data.trafo import DataTransformer
    handler = ah.ArrayHandler()
    handler.configure(config=dict(key=key, tensors=tensors))
    trafo = DataTransformer()
    trafo.configure(data_handler=handler,
                    data_iterator_settings=dict(splits=splits, key=key),
                    num_batches=len(splits), float_precision=prec)
    return handler, trafo


def check_stats(m, trafo, handler, arrays, prec, where):
    for t in handler.tensors.list:
        key = t.name
        if not (t.exists and t.trafo):
            m.check(key + '_mean' not in trafo.data, 'unneeded-statistics')
            continue
        x = log_part(arrays[key].astype(prec), t.trafo_log)
        mean, std = two_pass(x, t.trafo_reduce_axes)
        raw = np.array(std)
        got_mean = np.asarray(trafo.data[key + '_mean'])
        got_std = np.asarray(trafo.data[key + '_std'])
        if not m.equal((got_mean.shape, got_std.shape),
                       (mean.shape, std.shape), 'stat-shape', tensor=key,
                       **where):
            continue
        eps = 3e-5 if prec == 'float32' else 1e-9
        size = np.max(np.abs(x)) + 1e-12
        # log(1 + x) of a small x is rounded to the precision of 1 + x
        small = 1e-6 if prec == 'float32' else 1e-15
        # constant columns: rounding of the online update may leave a tiny
        # but non-zero spread; it must never be zero (division by zero)
        const = raw < 1e-12 * size
        m.event('constant_columns', int(const.sum()))
        m.event('statistics_compared')
        m.check(bool(np.all(got_std > 0)), 'zero-std', tensor=key,
                observed=got_std, **where)
        m.check(bool(np.all(np.abs(got_mean - mean)
                            <= eps * (np.abs(mean) + raw + 1e-12)
                            + small)),
                'mean', 'mean differs from two-pass mean', tensor=key,
                observed=got_mean, expected=mean, **where)
        tol = 10 * eps * (np.abs(mean) * (1e-2 if prec == 'float64' else 1.)
                          + raw) + small + 1e-14
        ok = np.abs(got_std - raw) <= tol
        ok |= const & ((got_std == 1.) | (got_std <= tol))
        m.check(bool(np.all(ok)), 'std', 'std differs from two-pass std',
                tensor=key, observed=got_std, expected=raw, n=where['n'],
                splits=where['splits'])


def run(m, rng):
    key = 'p{}'.format(rng.randint(2**31))
    n, tensors, arrays = make_problem(rng, key)
    prec = str(rng.choice(['float32', 'float64', 'float64']))
    results = []
    for splits in [random_split(rng, n), [n], [1] * n][:3 if n < 50 else 2]:
        handler, trafo = m.call('configure', build, key, tensors, splits,
                                prec)
        where = dict(n=n, splits=splits, precision=prec)
        check_stats(m, trafo, handler, arrays, prec, where)
        m.saw('problem', (tuple(sorted((t['name'], str(t['shape']),
                                        str(t.get('trafo_log')),
                                        str(t['trafo_reduce_axes']
                                            if 'trafo_reduce_axes' in t
                                            else ''))
                                       for t in tensors)), tuple(splits)))
        results.append(trafo)
    for other in results[1:]:
        m.event('split_pairs')
        for k in results[0].data:
            if k.endswith('_mean') or k.endswith('_std'):
                a = np.asarray(results[0].data[k], float)
                b = np.asarray(other.data[k], float)
                m.check(bool(np.all(np.abs(a - b) <= 1e-6 * (
                    np.abs(a) + 1e-9) + (
                        1e-6 if prec == 'float32' else 0.))), 'split-dependence', key=k,
                    observed=a, expected=b)
    # constant column: transform is finite, centred at zero
    trafo = results[0]
    for t in trafo.data['tensors'].list:
        if t.exists and t.trafo:
            y = m.call('transform', trafo.transform, arrays[t.name], t.name)
            m.check(bool(np.all(np.isfinite(y))), 'non-finite-transform',
                    tensor=t.name)
    # fewer batches than available: only these are used
    if n > 4:
        splits = [2, 2]
        handler, part = build(key, tensors, splits, prec)
        check_stats(m, part, handler, {k: v[:4] for k, v in arrays.items()},
                    prec, dict(n=4, splits=splits, precision=prec))
    # save and load
    from egenerator.data.trafo import DataTransformer
    d = tempfile.mkdtemp(dir=scratch())
    trafo.save(d, overwrite=True)
    loaded = DataTransformer()
    m.call('load', loaded.load, d)
    m.event('save_load')
    m.equal(sorted(loaded.data), sorted(trafo.data), 'loaded-keys')
    for k in trafo.data:
        a, b = trafo.data[k], loaded.data.get(k)
        if isinstance(a, np.ndarray):
            m.array_equal(b, a, 'loaded-statistics', check_dtype=True, key=k)
        else:
            m.check(a == b, 'loaded-statistics', key=k, observed=b,
                    expected=a)
    for t in trafo.data['tensors'].list:
        if t.exists and t.trafo:
            m.array_equal(loaded.transform(arrays[t.name], t.name),
                          trafo.transform(arrays[t.name], t.name),
                          'loaded-transform', check_dtype=True)
    shutil.rmtree(d)


def case_random(m, rng, n):
    for _ in range(n):
        run(m, rng)


def pipeline_child(beat, n_batches, batch_size, directory):
    from egenerator.data.trafo import DataTransformer
    handler = ev.make_handler(ev.handler_config())
    trafo = DataTransformer()
    trafo.configure(
        data_handler=handler,
        data_iterator_settings=dict(
            input_data=os.path.join(directory, '*.hdf5'),
            batch_size=batch_size, sample_randomly=True,
            pick_random_files_forever=False, num_jobs=2),
        num_batches=n_batches)
    handler.kill()
    return {k: np.asarray(v) for k, v in trafo.data.items()
            if k.endswith('_mean') or k.endswith('_std')}


def case_pipeline(m, rng):
    """The real multiprocessing pipeline feeds every event exactly once."""
    from vh.forkrun import run_scenarios
    d = tempfile.mkdtemp(dir=scratch())
    events = []
    for k in range(3):
        e = ev.make_events(rng, 4, n_pulses=20, icetop=0.)
        events += e
        ev.write_hdf(os.path.join(d, 'f{}.hdf5'.format(k)), e)
    res = run_scenarios([(0, functools.partial(
        pipeline_child, n_batches=3, batch_size=4, directory=d), None)],
        parallel=1)[0]
    if not m.check(res[0] == 'ok', 'pipeline-' + res[0], result=res[1]):
        return
    got = res[1]
    labels = np.array([[e['labels'][n] for n in ev.LABELS] for e in events],
                      dtype=np.float32).astype(float)
    labels[:, 5] = np.log(1. + labels[:, 5])
    charge = np.zeros((len(events), 86, 60, 1), dtype=np.float64)
    for i, e in enumerate(events):
        for s, o, t, q in e['pulses']:
            charge[i, s - 1, o - 1, 0] += q
    mean, std = two_pass(labels, ())
    m.close(got['x_parameters_mean'], mean, 'pipeline-mean', rtol=1e-6)
    m.close(got['x_parameters_std'], std, 'pipeline-std', rtol=1e-6)
    mean, std = two_pass(np.log(1. + charge), (1, 2))
    std[std == 0] = 1.
    m.close(got['x_dom_charge_mean'], mean, 'pipeline-mean', rtol=1e-6)
    m.close(got['x_dom_charge_std'], std, 'pipeline-std', rtol=1e-6)
    m.event('statistics_compared', 4)
    shutil.rmtree(d)


def cases(tier):
    return [Case('random', case_random, reps=3, reps_thorough=200, n=6),
            Case('pipeline', case_pipeline, reps=1, reps_thorough=10)]
