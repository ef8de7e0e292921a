"""M06: parameters are addressed consistently by name and index."""
import numpy as np

from vh.core import Case
from vh import models as md
import m03

RULE = ('models of every kind are built from random configurations; names, '
        'indices, attributes and dictionary look-ups of tagged parameter '
        'tensors are compared with the order implied by the configuration; '
        'the parameters that the manager hands to the models for random '
        'subsets of fitted parameters (in both spaces, seeds given as '
        'tensor or by name, eager and graph) and the assembled results are '
        'recorded and compared column by column; distinct = (model, '
        'subset size, space, kind of seed)')
ASSUMPTIONS = ['the configured parameter names are distinct']
BUDGET = {'quick': 15, 'thorough': 400}
REQUIRE = {'lookups': 300, 'models': 12, 'subsets': 24, 'results': 24}


def expected_names(kind, model):
    """Parameter names implied by the configuration."""
    config = model.configuration.config['config']
    snow = []
    for name, k in config.get('snowstorm_parameter_names', []):
        snow += [name.format(i) for i in range(k)]
    if kind == 'noise':
        return []
    if kind == 'segment':
        return md.CASCADE + ['length', 'stochasticity'] + snow
    if kind in ('cascade', 'systematic', 'quantile'):
        return md.CASCADE + list(config.get('additional_label_names', [])) \
            + snow
    if kind == 'independent':
        out = []
        for source in sorted(config['sources']):
            base = model.sub_components[config['sources'][source]]
            out += [source + '_' + p for p in base.parameter_names]
        return out
    n = config['num_cascades']
    if kind == 'muon':
        return ['x', 'y', 'z', 'zenith', 'azimuth', 'time'] + [
            'cascade_{:04d}_log_energy'.format(i) for i in range(n)]
    out = ['zenith', 'azimuth', 'track_anchor_x', 'track_anchor_y',
           'track_anchor_z', 'track_anchor_time', 'track_energy',
           'track_distance_start', 'track_distance_end',
           'track_stochasticity']
    for i in range(n):
        out.append('cascade_{:04d}_energy'.format(i))
        if i:
            out.append('cascade_{:04d}_distance'.format(i))
    return out + snow


def case_names(m, rng, kind):
    import tensorflow as tf
    handler, model, sampler = md.any_model(kind, rng, randomized=0)
    names = list(model.parameter_names)
    want = expected_names(kind, model)
    m.event('models')
    m.saw('models', (kind, len(names)))
    m.equal(names, want, 'names', 'parameter names of ' + kind)
    m.equal(len(set(names)), len(names), 'unique', 'names are not unique')
    m.equal(model.num_parameters, len(names), 'number', 'num_parameters')
    values = rng.normal(size=(3, len(names))).astype(np.float32)
    tensor = model.add_parameter_indexing(tf.constant(values))
    seen = {}

    @tf.function
    def graph(x):
        x = model.add_parameter_indexing(x)
        return [x.params[n] for n in names], [getattr(x.params, n)
                                              for n in names]
    by_key, by_attr = graph(tf.constant(values)) if names else ([], [])
    for i, name in enumerate(names):
        m.event('lookups')
        m.equal(model.get_index(name), i, 'index', 'index of ' + name)
        m.equal(model.get_name(i), name, 'name', 'name of {}'.format(i))
        m.array_equal(tensor.params[name].numpy(), values[:, i], 'params',
                      'column of ' + name)
        m.array_equal(getattr(tensor.params, name).numpy(), values[:, i],
                      'params', 'attribute ' + name)
        m.array_equal(by_key[i].numpy(), values[:, i], 'params-graph', name)
        m.array_equal(by_attr[i].numpy(), values[:, i], 'params-graph', name)
        seen[name] = i
    m.equal(sorted(tensor.params.keys()), sorted(names), 'params', 'keys')
    m.raises(lambda: model.get_index('no such parameter'), 'unknown-refused',
             'unknown name')
    m.raises(lambda: model.get_name(len(names)), 'unknown-refused',
             'index out of range')
    wrong = tf.zeros([2, len(names) + 1])
    m.raises(lambda: model.add_parameter_indexing(wrong), 'shape-refused',
             'tensor with the wrong number of parameters')
    if kind in md.MULTI:
        params = sampler(3)
        indexed = model.add_parameter_indexing(tf.constant(params))
        handed = model.get_source_parameters(indexed)
        for name, base, own in m03.oracle_sources(kind, model, params):
            m.event('lookups')
            m.close(handed[name].numpy(), own, 'source-parameters',
                    'parameters of source {} ({})'.format(name, kind),
                    rtol=2e-5, atol=2e-2 if kind != 'independent' else 0)
            m.equal(handed[name].shape[1],
                    model.sub_components[base].num_parameters,
                    'source-parameters', 'number of columns')


class Recorder(object):
    """Loss module which records the parameters handed to the models."""

    def __init__(self, tensor):
        self.tensor = tensor
        self.seen = []

    def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                 parameter_tensor_name, reduce_to_scalar=True, **kwargs):
        import tensorflow as tf
        assert parameter_tensor_name == self.tensor
        params = data_batch_dict[parameter_tensor_name]
        return tf.reduce_sum(params * (1. + tf.range(
            params.shape[-1], dtype=params.dtype)))


def random_subset(rng, n):
    k = rng.randint(4)
    if k == 0:
        return [True] * n
    fit = [bool(v) for v in rng.rand(n) < [0.2, 0.5, 0.8][k - 1]]
    if not any(fit):
        fit[rng.randint(n)] = True
    return fit


def case_subsets(m, rng, kind='cascade'):
    import tensorflow as tf
    from egenerator.manager.reconstruction.modules.utils import trafo as ut
    handler, model, sampler = md.build(
        kind, rng, randomized=0, seeds=['seed_a', 'seed_b'],
        time_exclusions=False)
    manager = md.make_manager(handler, [model])
    trafo = model.data_trafo
    names = list(model.parameter_names)
    n = len(names)
    used = {}

    def fake(data_batch_dict, is_training, parameter_tensor_name):
        used['params'] = data_batch_dict[parameter_tensor_name]
        return {}
    for _ in range(6):
        fit = random_subset(rng, n)
        space = bool(rng.rand() < 0.6)
        events = int(rng.randint(1, 4))
        tensor = 'x_parameters'
        data = md.make_batch(rng, sampler(events), time_exclusions=False,
                             mean_pulses=3, quantiles=kind == 'quantile',
                             seeds={'seed_a': sampler(events),
                                    'seed_b': sampler(events)})
        batch = md.batch_tuple(handler, data, as_tensor=True)
        by_name = bool(rng.rand() < 0.4)
        seed_name = ['seed_a', 'seed_b'][rng.randint(2)]
        seed = seed_name if by_name else data[seed_name]
        target = sampler(events)
        # what is fitted, in the space of the fit
        full = np.asarray(trafo.transform(target, tensor_name=tensor)) \
            if space else target
        part = full[:, np.array(fit)]
        want = np.where(np.array(fit), target, data[seed_name])
        m.event('subsets')
        m.saw('subsets', (kind, sum(fit), space, by_name))
        model.get_tensors = fake
        try:
            with md.eager():
                loss = manager.parameter_loss_function(
                    tf.constant(part), batch, Recorder(tensor), fit,
                    minimize_in_trafo_space=space, seed=seed,
                    parameter_tensor_name=tensor)
            got = used.pop('params').numpy()
        finally:
            del model.get_tensors
        m.close(got, want, 'handed', 'parameters evaluated for the fitted '
                'subset {}'.format(fit), rtol=2e-4, atol=2e-3, names=names)
        # gradients belong to the fitted columns, in their order
        if not space:
            weights = 1. + np.arange(n)
            model.get_tensors = fake
            try:
                func = manager.get_loss_and_gradients_function(
                    loss_module=Recorder(tensor), fit_paramater_list=fit,
                    input_signature=None, minimize_in_trafo_space=False,
                    parameter_tensor_name=tensor)
                _, grad = func(tf.constant(part), batch,
                               seed=tf.constant(data[seed_name]))
            finally:
                del model.get_tensors
            m.close(grad.numpy(), np.tile(weights[np.array(fit)],
                                          (events, 1)),
                    'gradient-columns', 'gradient of the fitted subset')
        # results
        m.event('results')
        result = ut.get_reco_result_batch(
            result_trafo=part, seed_tensor=data[seed_name],
            fit_paramater_list=fit, minimize_in_trafo_space=space,
            data_trafo=trafo, parameter_tensor_name=tensor)
        m.close(np.asarray(result), want, 'result', 'assembled result of '
                'the fitted subset', rtol=2e-4, atol=2e-3, names=names,
                fit=fit)


def cases(tier):
    out = [Case('names_' + kind, case_names, reps=2, reps_thorough=40,
                kind=kind) for kind in md.KINDS]
    for kind in ('cascade', 'segment', 'systematic'):
        out.append(Case('subsets_' + kind, case_subsets, reps=2,
                        reps_thorough=40, kind=kind))
    return out
