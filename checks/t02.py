import numpy as np

import t01
from vh.core import Case
from vh import array_handler as ah

RULE = ('the transformation of random data sets is applied to values on, '
        'near and far from the data, back and forth, in NumPy, in eager '
        'TensorFlow and inside tf.function; distinct = (tensor layout, log '
        'setting, precision, bias, direction)')
ASSUMPTIONS = ['values are inside the domain of the declared logarithms '
               '(above -1) and below e^60; tolerances follow the rounding of '
               'the declared precisions']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'round_trips': 100, 'tf_comparisons': 100,
           'untouched_tensors': 1, 'formula_checks': 50}


def values_for(rng, arrays, t, n):
    base = arrays[t['name']].astype(float)
    spread = np.std(base, axis=0) + 0.01 * np.abs(np.mean(base, axis=0)) \
        + 1e-3
    x = np.mean(base, axis=0) + rng.normal(size=(n,) + base.shape[1:]) \
        * spread * rng.choice([1., 3.])
    log = t.get('trafo_log')
    if isinstance(log, bool):
        log = [log] * base.shape[-1]
    for i, l in enumerate(log or []):
        if l:
            x[..., i] = np.abs(x[..., i])
            if rng.rand() < 0.3:
                x[..., i] *= 0.
            elif rng.rand() < 0.3:
                x[..., i] = 10**rng.uniform(-2, 8, size=x[..., i].shape)
    return x, log


def run(m, rng):
    import tensorflow as tf
    key = 't{}'.format(rng.randint(2**31))
    n, tensors, arrays = t01.make_problem(rng, key)
    prec = str(rng.choice(['float32', 'float64', 'float64']))
    norm = float(rng.choice([1e-6, 1e-3]))
    from egenerator.data.trafo import DataTransformer
    handler = ah.ArrayHandler()
    handler.configure(config=dict(key=key, tensors=tensors))
    trafo = DataTransformer()
    trafo.configure(data_handler=handler, data_iterator_settings=dict(
        splits=[n], key=key), num_batches=1, float_precision=prec,
        norm_constant=norm)
    for t in tensors:
        if t.get('exists') is False:
            continue
        name = t['name']
        if not t['trafo']:
            # nothing is stored for it, so it can not be altered silently
            m.event('untouched_tensors')
            m.raises(lambda: trafo.transform(arrays[name], name),
                     'transform-without-trafo')
            continue
        x, log = values_for(rng, arrays, t, int(rng.choice([1, 2, 6])))
        dtype = str(rng.choice(['float32', 'float64']))
        x = x.astype(dtype)
        low = 'float32' in (prec, dtype)
        mean = np.asarray(trafo.data[name + '_mean'], float)
        std = np.asarray(trafo.data[name + '_std'], float)
        for bias in [True, False]:
            where = dict(tensor=name, log=str(log), precision=prec,
                         dtype=dtype, bias=bias)
            m.saw('setting', (str(t['shape']), str(log), prec, dtype, bias))
            x0 = x.copy()
            y = m.call('transform', trafo.transform, x, name,
                       bias_correction=bias)
            m.array_equal(x, x0, 'input-modified', **where)
            m.equal((y.shape, str(y.dtype)), (x.shape, dtype),
                    'shape-and-type', **where)
            # documented formula
            want = x.astype(float)
            if bias:
                want = t01.log_part(want, log)
                want = want - mean
            want = want / (norm + std)
            size = np.abs(t01.log_part(x.astype(float), log)
                          if bias else x.astype(float)) + np.abs(mean) + 1.
            tol = (2e-6 if low else 1e-12) * size / (norm + std) + 1e-12
            m.event('formula_checks')
            m.check(bool(np.all(np.abs(y - want) <= tol + 1e-6 * low *
                                np.abs(want))), 'formula', observed=y,
                    expected=want, **where)
            y0 = y.copy()
            back = m.call('inverse', trafo.inverse_transform, y, name,
                          bias_correction=bias)
            m.array_equal(y, y0, 'input-modified', **where)
            m.equal((back.shape, str(back.dtype)), (x.shape, dtype),
                    'shape-and-type', **where)
            # error amplification of exp for the logarithmic columns
            amp = size.copy()
            if bias:
                for i, l in enumerate(log or []):
                    if l:
                        amp[..., i] = (1. + np.abs(x[..., i])) * \
                            size[..., i]
            m.event('round_trips')
            m.check(bool(np.all(np.abs(back - x.astype(float)) <= (
                4e-6 if low else 1e-11) * amp)), 'round-trip',
                observed=back, expected=x, **where)
            # inverse first (starting from transformed values)
            z = rng.normal(size=x.shape).astype(dtype)
            w = trafo.inverse_transform(z, name, bias_correction=bias)
            z2 = trafo.transform(w, name, bias_correction=bias)
            span = (np.abs(mean) + 1.) / (norm + std) + 3.
            m.event('round_trips')
            m.check(bool(np.all(np.abs(z2 - z) <= (
                8e-6 if low else 1e-11) * span * 4 + 1e-12)),
                'round-trip-inverse', observed=z2, expected=z, **where)
            # TensorFlow
            xt = tf.constant(x)
            for style in ['eager', 'function']:
                if style == 'eager':
                    yt = m.call('tf-transform', trafo.transform, xt, name,
                                bias_correction=bias)
                    bt = m.call('tf-inverse', trafo.inverse_transform,
                                tf.constant(y), name, bias_correction=bias)
                else:
                    f = tf.function(lambda v: trafo.transform(
                        v, name, bias_correction=bias))
                    g = tf.function(lambda v: trafo.inverse_transform(
                        v, name, bias_correction=bias))
                    yt, bt = f(xt), g(tf.constant(y))
                m.event('tf_comparisons')
                m.equal((tuple(yt.shape), yt.dtype.name),
                        (x.shape, dtype), 'tf-shape-and-type', **where)
                m.check(bool(np.all(np.abs(yt.numpy() - y) <= tol * 2 +
                                    4e-6 * low * np.abs(y))), 'tf-vs-numpy',
                        observed=yt, expected=y, style=style, **where)
                m.check(bool(np.all(np.abs(bt.numpy() - back.astype(float))
                                    <= (8e-6 if low else 2e-11) * amp)),
                        'tf-vs-numpy-inverse', observed=bt, expected=back,
                        style=style, **where)
            m.array_equal(xt.numpy(), x0, 'input-modified')
    m.raises(lambda: trafo.transform(x, 'unknown_tensor'), 'unknown-tensor')
    bad = np.zeros((3, 99))
    m.raises(lambda: trafo.transform(bad, tensors[0]['name']), 'wrong-shape')
    m.raises(lambda: trafo.inverse_transform(bad, tensors[0]['name']),
             'wrong-shape')
    m.raises(lambda: DataTransformer().transform(x, 'tensor_0'),
             'unconfigured')


def case_random(m, rng, n):
    for _ in range(n):
        run(m, rng)


def cases(tier):
    return [Case('random', case_random, reps=4, reps_thorough=200, n=6)]
