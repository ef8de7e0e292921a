"""R09: Model ensembles combine their members as documented."""
import copy
import os
import shutil

import numpy as np

from vh.core import Case, scratch
from vh import models as md
from vh import pipeline as pl
from vh import toy as ty

RULE = ('managers of 1 to 12 members: losses, gradients, Hessians and result '
        'tensors are decided against closed forms or the members on their '
        'own, while single members are changed, stored and restored; '
        'incompatible members must be refused; managers are written to '
        'directories, moved, combined with random updates by the '
        'configurator, and the data it loads and the losses it finds are '
        'compared with the modules asked for; distinct = (members, '
        'operation, updates)')
ASSUMPTIONS = ['a configurator is the first user of tensorflow in its '
               'process or the number of threads is the default']
WORKERS = {'quick': 4}
BUDGET = {'quick': 30, 'thorough': 400}
REQUIRE = {'ensembles': 10, 'ensemble losses': 60, 'member changes': 20,
           'restored members': 30, 'refused ensembles': 12,
           'accepted ensembles': 6, 'configurators': 4, 'loaded files': 8,
           'real ensembles': 3}


def loss_function(manager, loss):
    return manager.get_concrete_function(
        function=manager.get_loss,
        input_signature=(manager.data_handler.get_data_set_signature(),),
        loss_module=loss, is_training=False,
        opt_config={'l1_regularization': 0., 'l2_regularization': 0.})


def case_members(m, rng):
    """Analytic members: sums, single members, storage."""
    import tensorflow as tf
    from egenerator.manager.source import SourceManager
    n = int(rng.choice([1, 2, 2, 3, 4, 5, 11, 12]))
    toy = ty.Toy(rng, n_params=int(rng.randint(1, 8)), dtype='float64',
                 n_models=n, n_events=int(rng.randint(1, 4)))
    m.event('ensembles')
    m.saw('members', n)
    man = toy.manager
    if not m.check(len(man.models) == n and all(
            a is b for a, b in zip(man.models, toy.models)),
            'members of the manager', '', got=len(man.models), want=n):
        return
    weights = list(toy.weights)

    def assign(models, values):
        for x, w in zip(models, values):
            x._untracked_data['weight'].assign(w)

    def decide(functions, batch, arrays, values, label):
        an = toy.analytic(arrays['x_target'])
        an.weights = values
        m.event('ensemble losses')
        want = an.loss(arrays['x_parameters'])
        got = float(m.call('loss raised', functions['loss'], batch))
        m.check(abs(got - want) < 1e-7 * (abs(want) + sum(values) + 1),
                'loss of the ensemble is not the sum of its members', label,
                got=got, want=want, weights=values)
        theta = arrays['x_parameters']
        args = (tf.constant(theta), batch, tf.constant(theta))
        value, grad = m.call('gradient raised', functions['grad'], *args)
        m.check(abs(float(value) - want) < 1e-7 * (abs(want) + sum(
            values) + 1), 'loss of the ensemble is not the sum of its '
            'members', label + ' gradient', got=float(value), want=want)
        jac = an.jac_u(theta) * an.du(theta)[:, None]
        scale = np.abs(jac).sum(axis=1) + 1e-9
        m.check((np.abs(np.asarray(grad) - jac.sum(axis=1)) /
                 scale).max() < 1e-6, 'gradient of the ensemble', label)
        for i, x in enumerate(values):
            t = functions['tensors'][i]
            if t is not None:
                r = m.call('result tensors raised', t, tf.constant(theta))
                m.check(abs(float(r['weight']) - x) < 1e-12 and
                        np.array_equal(r['theta'], theta),
                        'result tensors are not those of the member', label,
                        member=i, got=float(r['weight']), want=x)

    def functions(manager):
        spec = toy.specs()
        chosen = set(int(v) for v in rng.randint(0, n, 2))
        return dict(
            loss=loss_function(manager, toy.loss),
            grad=manager.get_loss_and_gradients_function(
                loss_module=toy.loss, input_signature=spec,
                fit_paramater_list=[True] * toy.P,
                minimize_in_trafo_space=False),
            tensors=[m.call('function of the result tensors raised',
                            manager.get_model_tensors_function, i)
                     if i in chosen else None for i in range(n)])
    truth = toy.draw(rng, toy.n)
    batch, _, arrays = toy.batch(rng, truth=toy.near(rng, truth),
                                 target=truth)
    funcs = functions(man)
    decide(funcs, batch, arrays, weights, 'initial')
    # directories: several stages of weights
    base = os.path.join(scratch(), 'ensemble{}'.format(md._COUNTER[0]))
    m.call('saving raised', man.save, base)
    stages = [list(weights)]
    for k in range(3):
        i = int(rng.randint(n))
        m.event('member changes')
        weights[i] = float(rng.uniform(0.2, 3.))
        man.models[i]._untracked_data['weight'].assign(weights[i])
        decide(funcs, batch, arrays, weights, 'changed member %d' % i)
        m.call('saving the weights raised', man.save_weights, base,
               protected=True)
        stages.append(list(weights))
    other = SourceManager()
    m.call('loading raised', other.load, base)
    if not m.check(len(other.models) == n, 'members of the loaded manager',
                   '', got=len(other.models), want=n):
        return
    m.event('restored members', n)
    decide(functions(other), batch, arrays, stages[-1], 'loaded')
    for k in rng.permutation(len(stages))[:2]:
        m.call('loading of the weights raised', man.load_weights, base,
               checkpoint_number=int(k) + 1)
        m.event('restored members', n)
        decide(funcs, batch, arrays, stages[k], 'checkpoint')
    # members are independent of those of the loaded manager
    assign(other.models, [9.] * n)
    decide(funcs, batch, arrays, stages[k], 'other manager changed')


def case_real(m, rng):
    """Real models: the loss is the sum of the losses of the members."""
    import tensorflow as tf
    kind = ['cascade', 'cascade', 'systematic', 'segment'][rng.randint(4)]
    handler, model, sampler = md.build(kind, rng, randomized=0.3)
    n = int(rng.randint(2, 4))
    models = [model]
    settings = copy.deepcopy(model.configuration.config['config'])
    for _ in range(n - 1):
        x = type(model)()
        x.configure(config=copy.deepcopy(settings),
                    data_trafo=model.data_trafo)
        md.randomize(x, rng, 0.3)
        models.append(x)
    m.event('real ensembles')
    m.saw('real', (kind, n))
    manager = m.call('ensemble refused', md.make_manager, handler, models)
    loss = md.make_loss()
    func = loss_function(manager, loss)
    managers = [md.make_manager(handler, [x]) for x in models]
    single = [loss_function(x, loss) for x in managers]
    for _ in range(3):
        data = md.make_batch(
            rng, sampler(int(rng.randint(1, 4))),
            time_exclusions=md.has_windows(handler),
            quantiles=kind == 'quantile')
        batch = md.batch_tuple(handler, data, as_tensor=True)
        parts = [float(f(batch)) for f in single]
        got = float(m.call('loss raised', func, batch))
        m.event('ensemble losses')
        m.check(abs(got - sum(parts)) < 2e-6 * sum(abs(p) for p in parts),
                'loss of the ensemble is not the sum of its members', kind,
                got=got, want=sum(parts), members=parts)
        m.check(len(set(parts)) == n, 'members with different weights '
                'predict the same', kind)
        md.randomize(models[int(rng.randint(n))], rng, 0.1)
    # tensors of a single member without exclusions
    if kind != 'quantile':
        i = int(rng.randint(n))
        theta = sampler(2).astype(np.float32)
        f = m.call('function of the result tensors raised',
                   manager.get_model_tensors_function, i)
        got = m.call('result tensors raised', f, tf.constant(theta))
        data = md.make_batch(rng, theta, time_exclusions=md.has_windows(
            handler), dom_exclusions=False)
        data['x_dom_exclusions'] = np.ones((2, 86, 60, 1), bool)
        if md.has_windows(handler):
            data['x_time_exclusions'] = np.zeros((0, 2), np.float32)
            data['x_time_exclusions_ids'] = np.zeros((0, 3), np.int32)
        want = md.evaluate(models[i], handler, data)
        for key in ('dom_charges', 'latent_var_mu', 'latent_var_r'):
            if key in want:
                m.check(np.allclose(got[key], want[key], rtol=1e-4,
                                    atol=1e-5), 'result tensors are not '
                        'those of the member', kind, key=key)


# --------------------------------------------------------------------------
# incompatible members
# --------------------------------------------------------------------------
def case_refused(m, rng):
    """Members that do not match are refused, matching ones accepted."""
    import tensorflow as tf
    from egenerator.data.trafo import DataTransformer
    seed = int(rng.randint(2**31))
    P = int(rng.randint(2, 6))

    def make(**kw):
        return ty.Toy(np.random.RandomState(seed), n_params=P,
                      dtype='float64', **kw)
    a = make()

    def copied(toy):
        """The same transformation through a directory."""
        md._COUNTER[0] += 1
        path = os.path.join(scratch(), 'trafo{}'.format(md._COUNTER[0]))
        toy.trafo.save(path)
        out = DataTransformer()
        out.load(path)
        return out

    def member(trafo, names=None):
        model = ty.ToySource()
        model.configure(config=dict(names=names or a.names, weight=1.,
                                    dtype='float64'), data_trafo=trafo)
        return model

    def changed(kind):
        trafo = copied(a)
        key = 'x_parameters_' + ('mean', 'std')[rng.randint(2)]
        if kind == 'moment':
            x = np.array(trafo.data[key])
            x[rng.randint(P)] *= 1 + 1e-9 if rng.rand() < 0.3 else 1.1
            trafo._data[key] = x
        elif kind == 'missing':
            trafo._data.pop(key)
        elif kind == 'additional':
            trafo._data['x_other_mean'] = np.ones(3)
        return trafo
    n = int(rng.choice([2, 3, 12]))
    position = int(rng.randint(1, n))
    names = list(a.names)
    rng.shuffle(names)
    if names == a.names:
        names = names[::-1]
    other = ty.Toy(np.random.RandomState(seed + 1), n_params=P,
                   dtype='float64')
    bad = {
        'moment': lambda: member(changed('moment')),
        'missing': lambda: member(changed('missing')),
        'additional': lambda: member(changed('additional')),
        'norm constant': lambda: member(make(norm_constant=1e-5).trafo),
        'names': lambda: member(copied(a), names),
        'other data': lambda: member(other.trafo),
        'more parameters': lambda: ty.Toy(np.random.RandomState(
            seed), n_params=P + 1, dtype='float64').models[0],
    }
    for kind in [k for k in sorted(bad) if rng.rand() < 0.8]:
        m.event('refused ensembles')
        m.saw('refused', (kind, n))
        models = [member(copied(a)) if i < 2 else member(a.trafo)
                  for i in range(n)]
        models[position] = m.call('building a member', bad[kind])
        m.raises(lambda: md.make_manager(a.handler, models),
                 'incompatible members accepted', kind,
                 exceptions=(ValueError,))
    # handler that does not match the members
    m.event('refused ensembles')
    wrong = ty.Toy(np.random.RandomState(seed), n_params=P, dtype='float64',
                   seeds=('x_seed', 'x_seed_more'))
    m.raises(lambda: md.make_manager(wrong.handler, [member(a.trafo)]),
             'incompatible handler accepted', exceptions=(ValueError,))
    for _ in range(2):
        m.event('accepted ensembles')
        models = [member(copied(a)) if rng.rand() < 0.7 else
                  member(a.trafo) for _ in range(n)]
        manager = m.call('compatible members refused', md.make_manager,
                         a.handler, models)
        batch, an, arrays = a.batch(rng)
        want = n * an.loss(arrays['x_parameters'])
        got = float(m.call('loss raised', loss_function(manager, a.loss),
                           batch))
        m.check(abs(got - want) < 1e-7 * (abs(want) + 1),
                'loss of the ensemble is not the sum of its members',
                'copies', got=got, want=want)
    del tf


# --------------------------------------------------------------------------
# configurator
# --------------------------------------------------------------------------
def close_lists(a, b):
    return len(a) == len(b) and all(
        (x is None and y is None) or (x is not None and y is not None and
                                      np.array_equal(x, y))
        for x, y in zip(a, b))


def case_configurator(m, rng):
    from egenerator.data.modules.labels.snowstorm_cascades import \
        SnowstormCascadeGeneratorLabelModule
    from egenerator.utils.configurator import ManagerConfigurator
    from vh import events as ev
    base = os.path.join(scratch(), 'project{}'.format(
        int(rng.randint(2**31))))
    p = pl.Project(rng, base, n_files=2, n_events=6,
                   seeds=('SeedA', 'SeedB'))
    # pulses of another name
    store_tables = {}
    sizes = [int(v) for v in rng.choice([1, 1, 2], size=int(
        rng.choice([1, 2, 2, 3])))]
    dirs, handler, trafo = pl.write_managers(m, rng, p, sizes)
    losses = ['unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh'
              if p.model_config['estimate_charge_distribution'] is False
              else 'negative_binomial_charge_pdf']
    chosen = []
    start = rng.randint(2)
    for k, (path, _) in enumerate(dirs):
        config = p.config()
        chosen.append(losses[(start + k) % 2])
        config['loss_module_settings']['config']['loss_function_name'] = \
            chosen[-1]
        shutil.copy(p.write(config), os.path.join(path, 'reco_config.yaml'))
    # the directories are moved as a whole
    moved = []
    for i, (path, models) in enumerate(dirs):
        new = p.path('moved', 'm.%d' % i)
        os.makedirs(os.path.dirname(new), exist_ok=True)
        shutil.move(path, new)
        moved.append((new, models))
    # other pulses, as a second data file
    second = p.path('second.hdf5')
    ev.write_hdf(second, p.events[0], pulse_key='OtherPulses', tables={
        s: (pl.PARAMS, p.seed_values[s][0].tolist()) for s in p.seeds})
    order = [int(i) for i in rng.permutation(len(moved))]
    paths = [moved[i][0] for i in order]
    hashes = {q: pl.tree_hash(q) for q in paths}
    options = {}
    load_labels = bool(rng.rand() < 0.6)
    options['load_labels'] = load_labels
    seeds = []
    if rng.rand() < 0.6:
        seeds = [['SeedA', 'SeedB'], ['SeedB'], ['x_parameters']][
            rng.randint(3)]
        options['misc_setting_updates'] = {'seed_names': seeds}
        seeds = [s for s in seeds if s != 'x_parameters']
    shift = False
    if rng.rand() < 0.5:
        shift = load_labels
        options['label_setting_updates'] = {'shift_cascade_vertex': True}
    if rng.rand() < 0.6:
        options['data_setting_updates'] = {'pulse_key': 'OtherPulses'}
    reco = None
    if rng.rand() < 0.7:
        reco = order[-1]
        if len(order) > 1 and chosen[reco] == chosen[order[0]]:
            reco = order[1]
        options['reco_config_dir'] = moved[reco][0]
    given = copy.deepcopy(options)
    m.event('configurators')
    m.saw('configurator', (tuple(sizes), tuple(sorted(options)),
                           load_labels, tuple(seeds)))
    label = '{} {}'.format(sizes, options)
    conf = m.call('configurator raised', ManagerConfigurator,
                  paths[0] if len(paths) == 1 and rng.rand() < 0.5
                  else paths, **options)
    m.check(options == given, 'settings were changed', label)
    manager = conf.manager
    want = [x for i in order for x in moved[i][1]]
    if not m.check(len(manager.models) == len(want), 'members of the '
                   'combined manager', label, got=len(manager.models),
                   want=len(want)):
        return
    m.event('restored members', len(want))
    for x, y in zip(manager.models, want):
        m.check(len(x.variables) == len(y.variables) and all(
            np.array_equal(a.numpy(), b.numpy())
            for a, b in zip(x.variables, y.variables)),
            'weights of a member', label)
    name = conf.loss_module.configuration.config['config'][
        'loss_function_name']
    m.check(name == chosen[order[0] if reco is None else reco],
            'loss module of the reconstruction', label, got=name)
    # data of the combined manager
    path = second if 'data_setting_updates' in options else p.files[0]
    m.event('loaded files')
    number, data = m.call('loading data raised',
                          manager.data_handler.get_data_from_hdf, path)
    names = manager.data_handler.tensors.names
    original = dict(zip(handler.tensors.names,
                        handler.get_data_from_hdf(p.files[0])[1]))
    m.check(number == len(p.events[0]), 'number of events', label)
    for key, value in original.items():
        if key == 'x_parameters':
            continue
        got = data[names.index(key)]
        m.check((got is None) == (value is None) and (
            value is None or np.array_equal(got, value)),
            'data of the combined manager', label, tensor=key)
    if not load_labels:
        m.check('x_parameters' not in names, 'labels are loaded', label)
    else:
        want_labels = original['x_parameters']
        if shift:
            module = SnowstormCascadeGeneratorLabelModule()
            settings = dict(p.config()['data_handler_settings'][
                'label_settings'], shift_cascade_vertex=True)
            module.configure(config_data=None, **settings)
            want_labels = module.get_data_from_hdf(path)[1][0]
        m.check('x_parameters' in names and np.array_equal(
            data[names.index('x_parameters')], want_labels),
            'labels of the combined manager', label)
    for s in ('SeedA', 'SeedB'):
        m.check((s in names) == (s in seeds), 'seeds of the combined '
                'manager', label, seed=s, names=names)
        if s in seeds and s in names:
            m.check(np.allclose(data[names.index(s)], p.seed_values[s][0],
                                rtol=1e-5), 'values of the seed', label,
                    seed=s)
    # loss: sum of the members, each on its own
    values = dict(zip(names, data))
    values.setdefault('x_parameters', original['x_parameters'])
    import tensorflow as tf
    handler = manager.data_handler
    tensors = tuple(tf.zeros([number], t.dtype) if v is None else
                    tf.convert_to_tensor(v, t.dtype) for v, t in zip(
                        data, handler.tensors.list))
    theta = tf.constant(original['x_parameters'])
    spec = tf.TensorSpec([None, 7], tf.float32)
    m.event('ensemble losses')
    func = m.call('loss function raised', manager.get_parameter_loss_function,
                  loss_module=conf.loss_module,
                  input_signature=(spec, handler.get_data_set_signature()),
                  fit_paramater_list=[True] * 7,
                  minimize_in_trafo_space=False, seed=None)
    total = float(m.call('loss raised', func, theta, tensors))
    by_name = dict(zip(names, tensors))
    by_name['x_parameters'] = theta
    part = 0.
    for x in want:
        result = x.get_tensors(by_name, is_training=False)
        part += float(conf.loss_module.get_loss(
            by_name, result, handler.tensors, model=x))
    m.check(abs(total - part) < 2e-4 * abs(part) + 0.1,
            'loss of the ensemble is not the sum of its members',
            'combined', got=total, want=part)
    del values, store_tables
    for q in paths:
        m.check(pl.tree_hash(q) == hashes[q], 'files of the exported '
                'manager were changed', label)
    m.event('loaded files')
    # a second configurator gives the same
    again = m.call('configurator raised', ManagerConfigurator, paths,
                   **options)
    second_data = again.manager.data_handler.get_data_from_hdf(path)[1]
    m.check(again.manager.data_handler.tensors.names == names and
            close_lists(second_data, data), 'second configurator differs',
            label)
    del trafo


def cases(tier):
    return [Case('configurator', case_configurator, 6, 40),
            Case('real', case_real, 3, 30),
            Case('members', case_members, 8, 80),
            Case('refused', case_refused, 3, 30)]
