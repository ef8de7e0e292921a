"""Small real components: data handler, transformer, models, managers.

Only construction helpers live here; all objects are the repository's own
classes (the data handler is fed from memory through ArrayHandler).
"""
import contextlib
import io

import numpy as np

from vh import array_handler as ah

CASCADE = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']


def tensor_list(num_params, time_exclusions=True, dom_exclusions=True,
                seeds=(), quantiles=False, param_log=None, dtype='float32'):
    pulse_dim = 3 if quantiles else 2
    return [
        dict(name='x_dom_charge', shape=[None, 86, 60, 1],
             tensor_type='data', dtype=dtype, trafo=True,
             trafo_reduce_axes=(1, 2), trafo_log=True),
        dict(name='x_dom_exclusions', shape=[None, 86, 60, 1],
             tensor_type='data', dtype='bool', exists=dom_exclusions),
        dict(name='x_pulses', shape=[None, pulse_dim], tensor_type='data',
             dtype=dtype, vector_info={'type': 'value',
                                       'reference': 'x_pulses_ids'}),
        dict(name='x_pulses_ids', shape=[None, 3], tensor_type='data',
             dtype='int32', vector_info={'type': 'index',
                                         'reference': 'x_pulses'}),
        dict(name='x_time_window', shape=[None, 2], tensor_type='data',
             dtype=dtype),
        dict(name='x_time_exclusions', shape=[None, 2], tensor_type='data',
             dtype=dtype, exists=time_exclusions,
             vector_info={'type': 'value',
                          'reference': 'x_time_exclusions_ids'}),
        dict(name='x_time_exclusions_ids', shape=[None, 3],
             tensor_type='data', dtype='int32', exists=time_exclusions,
             vector_info={'type': 'index',
                          'reference': 'x_time_exclusions'}),
        dict(name='x_parameters', shape=[None, num_params],
             tensor_type='label', dtype=dtype, trafo=True,
             trafo_log=param_log),
    ] + [dict(name=s, shape=[None, num_params], tensor_type='misc',
              dtype=dtype) for s in seeds]


def cascade_values(rng, n, extra=()):
    """Plausible cascade hypotheses; extra: (low, high) per extra column."""
    cols = [rng.uniform(-400, 400, n), rng.uniform(-400, 400, n),
            rng.uniform(-400, 400, n), np.arccos(rng.uniform(-1, 1, n)),
            rng.uniform(0, 2 * np.pi, n), 10**rng.uniform(2, 5, n),
            rng.uniform(9000, 10500, n)]
    for low, high in extra:
        cols.append(rng.uniform(low, high, n))
    return np.stack(cols, axis=1).astype(np.float32)


def segment_values(rng, n, extra=()):
    """x, y, z, zenith, azimuth, energy, time, length, stochasticity."""
    base = cascade_values(rng, n)
    cols = [base, rng.uniform(10, 500, (n, 1)), rng.uniform(0, 1, (n, 1))]
    for low, high in extra:
        cols.append(rng.uniform(low, high, (n, 1)))
    return np.concatenate(cols, axis=1).astype(np.float32)


def make_batch(rng, params, time_exclusions=True, dom_exclusions=True,
               mean_pulses=25, seeds=None, quantiles=False, t0=None,
               n_pulses=None, max_tw=4, overlap=False):
    """Dictionary of numpy arrays with a consistent event structure."""
    n = len(params)
    charge = np.zeros((n, 86, 60, 1), np.float32)
    excl = np.ones((n, 86, 60, 1), bool)
    pulses, ids, tws, tw_ids, window = [], [], [], [], []
    for i in range(n):
        start = float(rng.uniform(8800, 9500)) if t0 is None else t0
        stop = start + float(rng.uniform(3000, 8000))
        window.append([start, stop])
        k = int(rng.poisson(mean_pulses)) if n_pulses is None else n_pulses[i]
        doms = [(rng.randint(86), rng.randint(60))
                for _ in range(max(1, k // 3))]
        rows = []
        for _ in range(k):
            s, o = doms[rng.randint(len(doms))]
            rows.append((s, o, rng.uniform(start, stop),
                         rng.randint(1, 24) / 8.))
        rows.sort()
        if time_exclusions:
            for _ in range(rng.randint(0, max_tw + 1)):
                s, o = doms[rng.randint(len(doms))] if rng.rand() < 0.6 \
                    else (rng.randint(86), rng.randint(60))
                a = rng.uniform(start - 200, stop - 100)
                b = a + rng.uniform(20, 1500)
                if not overlap and any(
                        w[:3] == [i, s, o] and not (b < w[3] or a > w[4])
                        for w in [list(x) + list(y) for x, y
                                  in zip(tw_ids, tws)]):
                    continue
                tws.append([a, b])
                tw_ids.append([i, s, o])
                # pulses inside of excluded windows have been removed
                rows = [r for r in rows if r[:2] != (s, o)
                        or not a <= r[2] <= b]
        if dom_exclusions:
            for _ in range(rng.randint(0, 30)):
                s, o = rng.randint(86), rng.randint(60)
                excl[i, s, o, 0] = False
            rows = [r for r in rows if excl[i, r[0], r[1], 0]]
        total = {}
        for s, o, t, q in rows:
            total[(s, o)] = total.get((s, o), 0.) + q
        seen = {}
        for s, o, t, q in rows:
            row = [q, t]
            if quantiles:
                seen[(s, o)] = seen.get((s, o), 0.) + q
                row.append(seen[(s, o)] / total[(s, o)])
            pulses.append(row)
            ids.append([i, s, o])
            charge[i, s, o, 0] += q
    dim = 3 if quantiles else 2
    data = dict(
        x_dom_charge=charge, x_dom_exclusions=excl,
        x_pulses=np.array(pulses, np.float32).reshape(-1, dim),
        x_pulses_ids=np.array(ids, np.int32).reshape(-1, 3),
        x_time_window=np.array(window, np.float32),
        x_time_exclusions=np.array(tws, np.float32).reshape(-1, 2),
        x_time_exclusions_ids=np.array(tw_ids, np.int32).reshape(-1, 3),
        x_parameters=np.asarray(params, np.float32))
    for name, values in (seeds or {}).items():
        data[name] = np.asarray(values, np.float32)
    return data


def make_handler(key, tensors):
    handler = ah.ArrayHandler()
    handler.configure(config=dict(key=key, tensors=tensors))
    return handler


def make_trafo(handler, key, arrays, norm_constant=1e-6,
               float_precision='float32'):
    from egenerator.data.trafo import DataTransformer
    n = len(arrays['x_parameters'])
    ah.STORE[key] = dict(arrays)
    for t in handler.tensors.list:
        if not t.exists:
            ah.STORE[key][t.name] = None
    trafo = DataTransformer()
    trafo.configure(data_handler=handler, data_iterator_settings=dict(
        splits=[n], key=key), num_batches=1,
        float_precision=float_precision, norm_constant=norm_constant)
    return trafo


_COUNTER = [0]


def setup(rng, params, seeds=(), time_exclusions=True, dom_exclusions=True,
          quantiles=False, param_log=None, fourier=False, **kwargs):
    """(handler, trafo) for a parameter matrix (used for the statistics)."""
    _COUNTER[0] += 1
    key = 'setup{}'.format(_COUNTER[0])
    tensors = tensor_list(params.shape[1], time_exclusions=time_exclusions,
                          dom_exclusions=dom_exclusions, seeds=seeds,
                          quantiles=quantiles, param_log=param_log)
    handler = make_handler(key, tensors)
    arrays = make_batch(rng, params, time_exclusions=time_exclusions,
                        dom_exclusions=dom_exclusions, quantiles=quantiles,
                        seeds={s: params for s in seeds}, mean_pulses=5)
    return handler, make_trafo(handler, key, arrays, **kwargs)


def batch_tuple(handler, data, as_tensor=False):
    import tensorflow as tf
    out = []
    for t in handler.tensors.list:
        v = data[t.name] if t.exists else np.zeros((), t.dtype)
        out.append(tf.convert_to_tensor(v) if as_tensor else v)
    return tuple(out)


def batch_dict(handler, data):
    import tensorflow as tf
    return {t.name: tf.convert_to_tensor(
        data[t.name] if t.exists else np.zeros((), t.dtype))
        for t in handler.tensors.list}


def signature(handler, with_params=None, seed=None):
    import tensorflow as tf
    spec = tuple(tf.TensorSpec(shape=t.shape if t.exists else [],
                               dtype=getattr(tf, t.dtype))
                 for t in handler.tensors.list)
    return spec


def cascade_config(rng=None, n_models=2, charge=True, opening=True,
                   coords=False, local_vars=0, scale=True, rel_eff=False,
                   global_eff=False, prevent_swap=False, extra=(),
                   snowstorm=None, layers=1, residual=True):
    n_charge = {True: 3, 'negative_binomial': 2, False: 1}[charge]
    config = dict(
        keep_prob=None, add_opening_angle=opening,
        add_dom_coordinates=coords, num_local_vars=local_vars,
        scale_charge=scale, scale_charge_by_relative_dom_efficiency=rel_eff,
        scale_charge_by_global_dom_efficiency=global_eff,
        prevent_mixture_component_swapping=prevent_swap,
        estimate_charge_distribution=charge, num_latent_models=n_models,
        additional_label_names=list(extra),
        filter_size_list=[[1, 1]] * (layers + 1),
        num_filters_list=[6] * layers + [4 * n_models + n_charge],
        method_list=['locally_connected'] + ['convolution'] * layers,
        use_dropout_list=False,
        activation_list=['elu'] * layers + [''],
        use_batch_norm_list=False, use_residual_list=residual)
    if snowstorm:
        config['snowstorm_parameter_names'] = [list(s) for s in snowstorm]
    return config


def make_cascade(trafo, config=None, cls=None, name=None, **kwargs):
    if cls is None:
        from egenerator.model.source.cascade.default import \
            DefaultCascadeModel as cls
    model = cls()
    model.configure(config=config or cascade_config(**kwargs),
                    data_trafo=trafo, **({'name': name} if name else {}))
    return model


def make_noise(trafo):
    from egenerator.model.source.noise.default import DefaultNoiseModel
    model = DefaultNoiseModel()
    model.configure(config={}, data_trafo=trafo)
    return model


def randomize(model, rng, scale=0.3):
    """Give all weights non-trivial values (shared variables only once)."""
    for v in model.variables:
        if v.dtype.is_floating:
            shape = v.shape.as_list()
            v.assign(v.numpy() + rng.normal(size=shape).astype(
                v.dtype.as_numpy_dtype) * scale)


def make_manager(handler, models, cls=None, **config):
    if cls is None:
        from egenerator.manager.source import SourceManager as cls
    manager = cls()
    config.setdefault('manager_dir', './manager')
    config.setdefault('I3ParticleMapping', {
        'x': 'x', 'y': 'y', 'z': 'z', 'zenith': 'zenith',
        'azimuth': 'azimuth', 'energy': 'energy', 'time': 'time',
        'length': None})
    manager.configure(config=config, data_handler=handler, models=models)
    return manager


def make_loss(name='unbinned_extended_pulse_llh', norm=False, **kwargs):
    from egenerator.loss.default import DefaultLossModule
    loss = DefaultLossModule()
    loss.configure(config=dict(float_precision='float32',
                               add_normalization_term=norm,
                               loss_function_name=name, **kwargs))
    return loss


def systematic_config(n_models=2, charge=True, opening=True, aniso=True,
                      coords=False, local_vars=2, scale=True, rel_eff=False,
                      extra=('aux',), snowstorm=(('DOMEfficiency', 1),)):
    n_charge = {True: 3, 'negative_binomial': 2, False: 1}[charge]
    return dict(
        keep_prob=None, add_opening_angle=opening, add_anisotropy_angle=aniso,
        add_dom_coordinates=coords, num_local_vars=local_vars,
        scale_charge=scale, scale_charge_by_relative_dom_efficiency=rel_eff,
        estimate_charge_distribution=charge, num_latent_models=n_models,
        additional_label_names=list(extra),
        snowstorm_parameter_names=[list(s) for s in snowstorm],
        filter_size_list=[[1, 1]] * 2, num_filters_list=[5, 4],
        method_list=['locally_connected', 'convolution'],
        use_dropout_list=False, activation_list=['elu', ''],
        use_batch_norm_list=False, use_residual_list=True,
        filter_size_list_2=[[1, 1]] * 2,
        num_filters_list_2=[6, 4 * n_models + n_charge],
        method_list_2=['convolution', 'convolution'],
        use_dropout_list_2=False, activation_list_2=['elu', ''],
        use_batch_norm_list_2=False, use_residual_list_2=True)


def segment_config(snowstorm=None, **kwargs):
    config = cascade_config(snowstorm=snowstorm, **kwargs)
    config.pop('additional_label_names')
    return config


def quantile_config(n_models=2, charge=True, latent=5, pred_charge=True,
                    snowstorm=None, **kwargs):
    n_charge = {True: 3, 'negative_binomial': 2, False: 1}[charge]
    config = cascade_config(charge=charge, snowstorm=snowstorm, **kwargs)
    config.pop('additional_label_names')
    config['num_latent_models'] = n_models
    config['num_filters_list'] = config['num_filters_list'][:-1] + [
        n_charge + latent]
    config.update(add_predicted_charge_to_latent_vars=pred_charge,
                  fc_num_filters_list=[7, 4 * n_models],
                  fc_use_dropout_list=False, fc_activation_list=['elu', ''],
                  fc_use_batch_norm_list=False, fc_use_residual_list=True)
    return config


def classes():
    from egenerator.model.source.cascade.default import DefaultCascadeModel
    from egenerator.model.source.cascade.systematic import \
        SystematicsCascadeModel
    from egenerator.model.source.cascade.charge_quantiles import \
        ChargeQuantileCascadeModel
    from egenerator.model.source.track.stochastic_segment import \
        StochasticTrackSegmentModel
    from egenerator.model.source.noise.default import DefaultNoiseModel
    return dict(cascade=DefaultCascadeModel,
                systematic=SystematicsCascadeModel,
                quantile=ChargeQuantileCascadeModel,
                segment=StochasticTrackSegmentModel,
                noise=DefaultNoiseModel)


def build(kind, rng, randomized=0.3, time_exclusions=None, seeds=(),
          param_log=None, dom_exclusions=True, n_stat=24, **kwargs):
    """One source model with handler; returns (handler, model, sampler).

    sampler(n) draws parameter matrices for the model."""
    time_ok = kind in ('cascade', 'noise')
    if time_exclusions is None:
        time_exclusions = time_ok and rng.rand() < 0.7
    charge = kwargs.pop('charge', [True, 'negative_binomial', False][
        rng.randint(3)])
    extra, snow, ranges = [], [], []
    if kind in ('cascade', 'systematic') and (kind == 'systematic'
                                              or rng.rand() < 0.5):
        extra = ['aux']
        ranges.append((-1., 1.))
    if kind != 'noise' and rng.rand() < 0.6:
        snow += [('DOMEfficiency', 1), ('Fourier_{:02d}', 2)]
        ranges += [(0.9, 1.1), (-1, 1), (-1, 1)]
    extra = kwargs.pop('extra', extra)
    snow = kwargs.pop('snowstorm', snow)
    ranges = kwargs.pop('ranges', ranges)
    values = segment_values if kind == 'segment' else cascade_values

    def sampler(n):
        return values(rng, n, ranges)
    params = sampler(n_stat)
    if param_log is None:
        param_log = [i == 5 for i in range(params.shape[1])]
    handler, trafo = setup(rng, params, time_exclusions=time_exclusions,
                           dom_exclusions=dom_exclusions, seeds=seeds,
                           quantiles=kind == 'quantile',
                           param_log=param_log)
    common = dict(charge=charge, n_models=int(rng.randint(2, 4)),
                  opening=bool(rng.rand() < 0.7),
                  coords=bool(rng.rand() < 0.4),
                  scale=bool(rng.rand() < 0.6),
                  rel_eff=bool(rng.rand() < 0.4))
    common.update(kwargs)
    eff = any(s[0] == 'DOMEfficiency' for s in snow)
    if kind == 'noise':
        config = {}
    elif kind == 'systematic':
        config = systematic_config(extra=extra, snowstorm=snow,
                                   local_vars=int(rng.choice([0, 2])),
                                   **common)
    else:
        common.update(local_vars=int(rng.choice([0, 2])),
                      global_eff=eff and bool(rng.rand() < 0.5),
                      snowstorm=snow)
        if kind == 'cascade':
            config = cascade_config(extra=extra, prevent_swap=bool(
                rng.rand() < 0.3), **common)
        elif kind == 'segment':
            config = segment_config(**common)
        else:
            config = quantile_config(pred_charge=bool(rng.rand() < 0.5),
                                     **common)
    model = classes()[kind]()
    model.configure(config=config, data_trafo=trafo)
    if randomized:
        randomize(model, rng, randomized)
    return handler, model, sampler


# --------------------------------------------------------------------------
# multi sources
# --------------------------------------------------------------------------
def independent(trafo, sources, bases, name=None):
    from egenerator.model.multi_source.independent import \
        IndependentMultiSource
    model = IndependentMultiSource()
    model.configure(config={'sources': sources}, base_sources=dict(bases),
                    data_trafo=trafo, **({'name': name} if name else {}))
    return model


def stack_columns(rng, n, names):
    """Plausible values by parameter name (any multi source)."""
    cols = []
    for name in names:
        if name.endswith('log_energy'):
            v = rng.uniform(4, 11, n)
        elif name.endswith('energy'):
            v = 10**rng.uniform(2, 5, n)
        elif name.endswith('zenith'):
            v = np.arccos(rng.uniform(-1, 1, n))
        elif name.endswith('azimuth'):
            v = rng.uniform(0, 2 * np.pi, n)
        elif name.endswith('time'):
            v = rng.uniform(9000, 10500, n)
        elif name.endswith('distance_start'):
            v = rng.uniform(-400, -50, n)
        elif name.endswith('distance_end'):
            v = rng.uniform(50, 400, n)
        elif name.endswith('_distance'):
            v = rng.uniform(-300, 300, n)
        elif name.endswith('stochasticity'):
            v = rng.uniform(0, 1, n)
        elif name.endswith('length'):
            v = rng.uniform(10, 500, n)
        elif name.endswith('DOMEfficiency'):
            v = rng.uniform(0.9, 1.1, n)
        elif name[-1] in 'xyz' and name[-2:-1] in ('', '_'):
            v = rng.uniform(-400, 400, n)
        else:
            v = rng.uniform(-1, 1, n)
        cols.append(v)
    if not cols:
        return np.zeros((n, 0), np.float32)
    return np.stack(cols, axis=1).astype(np.float32)


def build_multi(kind, rng, randomized=0.3, time_exclusions=None,
                seeds=(), dom_exclusions=True, charge=None, n_sources=None):
    """Multi-source model; returns (handler, model, sampler).

    kind: independent (cascades and noise), stochastic (track), muon."""
    if time_exclusions is None:
        time_exclusions = kind != 'stochastic' and rng.rand() < 0.7
    if charge is None:
        charge = [True, 'negative_binomial', False][rng.randint(3)]
    bases = {}
    if kind == 'independent':
        n = n_sources or int(rng.randint(2, 5))
        names = ['noise', 'cascade', 'alpha', 'zz', 'c2'][:n]
        names = [names[i] for i in rng.permutation(n)]
        sources = {}
        for name in names:
            sources[name] = 'noise' if name == 'noise' else \
                ['casc_a', 'casc_b'][rng.randint(2)]
        base_names = sorted(set(sources.values()))
        columns = []
        for name in sorted(sources):
            if sources[name] != 'noise':
                columns += [name + '_' + p for p in CASCADE]
    elif kind == 'muon':
        n = n_sources or int(rng.randint(2, 5))
        sources, base_names = n, ['cascade']
        columns = ['x', 'y', 'z', 'zenith', 'azimuth', 'time'] + [
            'cascade_{:04d}_log_energy'.format(i) for i in range(n)]
    else:
        n = int(rng.randint(0, 4)) if n_sources is None else n_sources
        snow = [('DOMEfficiency', 1), ('Fourier_{:02d}', 2)] \
            if rng.rand() < 0.6 else []
        sources, base_names = n, ['cascade', 'track']
        columns = ['zenith', 'azimuth', 'track_anchor_x', 'track_anchor_y',
                   'track_anchor_z', 'track_anchor_time', 'track_energy',
                   'track_distance_start', 'track_distance_end',
                   'track_stochasticity']
        for i in range(n):
            columns.append('cascade_{:04d}_energy'.format(i))
            if i:
                columns.append('cascade_{:04d}_distance'.format(i))
        for name, k in snow:
            columns += [name.format(i) for i in range(k)]

    # the base models see x_parameters in the layout of the base
    params = stack_columns(rng, 24, columns)
    base_trafo = {}
    handlers = {}
    for base in base_names:
        if base == 'noise':
            values = np.zeros((24, 1), np.float32)
        elif base == 'track':
            values = segment_values(rng, 24, [(0.9, 1.1), (-1, 1), (-1, 1)]
                                    if snow else [])
        else:
            values = cascade_values(rng, 24, [(0.9, 1.1), (-1, 1), (-1, 1)]
                                    if kind == 'stochastic' and snow else [])
        log = [i == 5 for i in range(values.shape[1])]
        handlers[base], base_trafo[base] = setup(
            rng, values, time_exclusions=time_exclusions, seeds=seeds,
            dom_exclusions=dom_exclusions, param_log=log)
    for base in base_names:
        kw = dict(charge=charge, n_models=int(rng.randint(2, 4)),
                  opening=bool(rng.rand() < 0.7),
                  scale=bool(rng.rand() < 0.6))
        if base == 'noise':
            model = make_noise(base_trafo[base])
        elif base == 'track':
            model = classes()['segment']()
            model.configure(config=segment_config(snowstorm=snow or None,
                                                  **kw),
                            data_trafo=base_trafo[base])
        else:
            if kind == 'stochastic':
                kw['snowstorm'] = snow or None
            model = make_cascade(base_trafo[base], cascade_config(**kw))
        if randomized:
            randomize(model, rng, randomized)
        bases[base] = model
    handler, trafo = setup(rng, params, time_exclusions=time_exclusions,
                           seeds=seeds, dom_exclusions=dom_exclusions)
    if kind == 'independent':
        model = independent(trafo, sources, bases)
    elif kind == 'muon':
        from egenerator.model.multi_source.muon.default import \
            DefaultMultiCascadeModel as cls
        model = cls()
        model.configure(config={'num_cascades': n}, base_sources=dict(bases),
                        data_trafo=trafo)
    else:
        from egenerator.model.multi_source.track.stochastic_track import \
            StochasticTrackModel as cls
        config = {'num_cascades': n}
        if snow:
            config['snowstorm_parameter_names'] = [list(s) for s in snow]
        model = cls()
        model.configure(config=config, base_sources=dict(bases),
                        data_trafo=trafo)

    def sampler(k):
        return stack_columns(rng, k, columns)
    model_columns = list(model.parameter_names)
    assert model_columns == columns, (model_columns, columns)
    return handler, model, sampler


@contextlib.contextmanager
def eager():
    """Run tf.functions eagerly (no tracing; same code, same results)."""
    import tensorflow as tf
    tf.config.run_functions_eagerly(True)
    try:
        # the models print their inputs while they are evaluated
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        tf.config.run_functions_eagerly(False)


# --------------------------------------------------------------------------
# evaluation and rearrangement of batches
# --------------------------------------------------------------------------
MULTI = ('independent', 'stochastic', 'muon')
KINDS = ('cascade', 'systematic', 'quantile', 'segment', 'noise') + MULTI
EVENT_KEYS = ('x_dom_charge', 'x_dom_exclusions', 'x_time_window',
              'x_parameters')
VECTOR_KEYS = (('x_pulses', 'x_pulses_ids'),
               ('x_time_exclusions', 'x_time_exclusions_ids'))


def any_model(kind, rng, **kwargs):
    return (build_multi if kind in MULTI else build)(kind, rng, **kwargs)


def has_windows(handler):
    return handler.tensors['x_time_exclusions'].exists


def evaluate(model, handler, data, graph=False, is_training=False, **kwargs):
    """Result tensors as a dictionary of numpy arrays."""
    if graph:
        import tensorflow as tf

        @tf.function
        def func(batch):
            return model.get_tensors(batch, is_training=is_training, **kwargs)
        with contextlib.redirect_stdout(io.StringIO()):
            out = func(batch_dict(handler, data))
    else:
        with eager():
            out = model.get_tensors(batch_dict(handler, data),
                                    is_training=is_training, **kwargs)
    return {k: v.numpy() for k, v in out.items()}


def select_events(data, indices):
    """Batch of the events indices (in that order) and the rows of every
    vector tensor they consist of."""
    out = {}
    rows = {}
    for key, value in data.items():
        if not any(key in pair for pair in VECTOR_KEYS):
            out[key] = value[indices]
    for key, ids in VECTOR_KEYS:
        values, labels, used = [], [], []
        for new, old in enumerate(indices):
            sel = np.flatnonzero(data[ids][:, 0] == old)
            values.append(data[key][sel])
            lab = data[ids][sel].copy()
            lab[:, 0] = new
            labels.append(lab)
            used.append(sel)
        out[key] = np.concatenate(values) if values else data[key][:0]
        out[ids] = np.concatenate(labels) if labels else data[ids][:0]
        rows[key] = np.concatenate(used) if used else np.zeros(0, int)
    return out, rows


def shuffle_rows(rng, data):
    """Random order of all pulses and windows (events interleaved)."""
    out = dict(data)
    rows = {}
    for key, ids in VECTOR_KEYS:
        perm = rng.permutation(len(data[key]))
        out[key], out[ids] = data[key][perm], data[ids][perm]
        rows[key] = perm
    return out, rows


def is_vector_result(name):
    """Result tensors with one row per pulse."""
    return name.startswith(('pulse', 'quantile'))


def event_loss(loss, model, handler, data, result=None):
    """Scalar likelihood of a batch."""
    batch = batch_dict(handler, data)
    with eager():
        if result is None:
            result = model.get_tensors(batch, is_training=False)
        return float(loss.get_loss(batch, result, handler.tensors,
                                   model=model).numpy())
