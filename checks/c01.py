import os
import shutil

import numpy as np

from vh.core import Case, scratch
from vh import comps
from vh import events as ev
from vh import models as md

RULE = ('random component trees and every kind of component of the '
        'repository (modular data handler, data transformer, source models, '
        'multi sources, loss modules, managers with ensembles) are saved, '
        'loaded from the original and from a moved directory, saved and '
        'loaded once more; configuration, data, sub components and '
        'everything computed from them is compared with the original; '
        'distinct = (component kind, settings, directory name)')
ASSUMPTIONS = ['settings consist of values which YAML can represent '
               '(None, bool, numbers, text, lists, tuples, dictionaries)',
               'checkpoints restore variables bit by bit, therefore model '
               'outputs of original and copy must be identical']
BUDGET = {'quick': 18, 'thorough': 500}
REQUIRE = {'trees': 30, 'tree_nodes': 100, 'model_outputs': 20,
           'loss_values': 20, 'moved': 20, 'handler_reads': 4,
           'kinds': 12}

DIRS = ['plain', 'with space', 'v1.2', 'v1.3.4', 'a/b/c', u'd\u00e4t',
        'trailing.', '.hidden', 'x' * 60, '%s{}', 'sub.dir/model.v2']


def new_dir(rng, tag):
    base = os.path.join(scratch(), 'c01_{}_{}'.format(
        tag, rng.randint(2**31)))
    return base, os.path.join(base, DIRS[rng.randint(len(DIRS))])


def describe(comp):
    """Recursive picture of everything that is tracked by a component."""
    conf = comp.configuration.dict
    return (type(comp), comp.is_configured,
            comps.freeze({k: v for k, v in conf.items()}),
            {k: describe(c) for k, c in comp.sub_components.items()})


def same(a, b):
    """Order-insensitive, type-strict comparison of two data objects."""
    return frz(a) == frz(b)


def frz(value):
    if hasattr(value, 'list') and hasattr(value, 'names'):
        return ('tensors', [tuple(sorted((k, repr(v)) for k, v in
                                         t.__dict__.items()))
                            for t in value.list])
    if isinstance(value, dict):
        return {repr(k): frz(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [frz(v) for v in value])
    return comps.freeze(value)


def compare(m, a, b, where):
    m.check(b.is_configured, 'configured', **where)
    m.equal(type(b), type(a), 'class', **where)
    da, db = a.configuration.dict, b.configuration.dict
    m.equal(sorted(db), sorted(da), 'configuration-keys', **where)
    for key in da:
        m.check(frz(da[key]) == frz(db.get(key)), 'configuration',
                'configuration {!r} differs'.format(key), observed=db[key],
                expected=da[key], **where)
    m.check(frz(a.configuration.config) == frz(b.configuration.config),
            'settings', observed=b.configuration.config,
            expected=a.configuration.config, **where)
    m.check(a.is_compatible(b) and b.is_compatible(a), 'compatible', **where)
    m.equal(sorted(b.data), sorted(a.data), 'data-keys', **where)
    for key in a.data:
        m.check(frz(a.data[key]) == frz(b.data.get(key)), 'data',
                'data {!r} differs'.format(key), observed=b.data.get(key),
                expected=a.data[key], **where)
    m.equal(sorted(b.sub_components), sorted(a.sub_components),
            'sub-components', **where)
    for name in a.sub_components:
        if name in b.sub_components:
            compare(m, a.sub_components[name], b.sub_components[name],
                    dict(where, path=where.get('path', '') + '/' + name))


def save_and_load(m, rng, comp, behaviour, kind, check, save=None,
                  n_copies=3):
    """Save, load, move and load, save again and load."""
    base, path = new_dir(rng, 'c')
    before = describe(comp)
    want = behaviour(comp)
    try:
        m.call('save', save or comp.save, path)
        m.check(describe(comp) == before, 'save-changes-original', case=kind)
        check(want, behaviour(comp), 'original-after-save')
        where = dict(component=kind, directory=os.path.relpath(path, base))
        m.saw('kinds', kind)
        m.saw('directories', where['directory'])
        copies = []
        one = type(comp)()
        m.call('load', one.load, path)
        copies.append((one, 'loaded'))
        if n_copies > 1:
            moved = os.path.join(base, 'moved to', DIRS[rng.randint(
                len(DIRS))])
            os.makedirs(os.path.dirname(moved), exist_ok=True)
            shutil.move(path, moved)
            two = type(comp)()
            m.call('load-moved', two.load, moved)
            copies.append((two, 'moved'))
            m.event('moved')
        if n_copies > 2:
            again = os.path.join(base, 'again', 'v2.0')
            m.call('save-again', one.save, again)
            three = type(comp)()
            m.call('load-again', three.load, again)
            copies.append((three, 'saved again'))
        for copy, how in copies:
            compare(m, comp, copy, dict(where, how=how))
            check(want, behaviour(copy), how)
        return copies
    finally:
        shutil.rmtree(base, ignore_errors=True)


def case_trees(m, rng, n):
    for _ in range(n):
        comp, count, depth = comps.random_tree(rng)
        m.event('trees')
        m.event('tree_nodes', count)
        m.saw('tree-shape', (count, depth))

        def check(a, b, how):
            m.check(a == b, 'behaviour', how, observed=b, expected=a)
        save_and_load(m, rng, comp, lambda c: c.answer(), 'tree', check)


# ------------------------------------------------------------------ models
def tensors_of(model, handler, data):
    with md.eager():
        result = model.get_tensors(md.batch_dict(handler, data),
                                   is_training=False)
    return {k: v.numpy() for k, v in result.items()}


def check_tensors(m, kind, exact=True):
    def check(a, b, how):
        m.equal(sorted(a), sorted(b), 'output-names', how, component=kind)
        for key in a:
            m.event('model_outputs')
            if not exact and a[key].dtype.kind == 'f':
                # the order in which sources are summed is not specified
                m.close(b[key], a[key], 'model-output', '{} {} {}'.format(
                    kind, how, key), rtol=1e-4, atol=1e-6)
                continue
            m.array_equal(b[key], a[key], 'model-output',
                          '{} {} {}'.format(kind, how, key),
                          check_dtype=True)
    return check


def case_model(m, rng, kinds):
    import tensorflow as tf
    kind = kinds[rng.randint(len(kinds))]
    multi = kind in ('independent', 'stochastic', 'muon')
    handler, model, sampler = (md.build_multi if multi else md.build)(
        kind, rng)
    data = md.make_batch(rng, sampler(3), quantiles=kind == 'quantile',
                         time_exclusions=handler.tensors[
                             'x_time_exclusions'].exists)
    if model.step is not None and not multi:
        model.step.assign(int(rng.randint(2, 1000)))

    def behaviour(c):
        out = tensors_of(c, handler, data)
        out['_names'] = np.array(c.parameter_names)
        out['_size'] = np.array([int(v) for v in c.num_variables])
        out['_name'] = np.array(str(c.name))
        if not multi:
            out['_step'] = c.step.numpy()
        return out
    copies = save_and_load(m, rng, model, behaviour, kind,
                           check_tensors(m, kind, not multi), n_copies=2)
    for copy, how in copies:
        # independent objects: changing one leaves the other alone
        if copy.variables:
            v = copy.variables[0]
            v.assign(v + tf.ones_like(v))
            m.check(not np.array_equal(copy.variables[0].numpy(),
                                       model.variables[0].numpy()),
                    'shared-variables', component=kind)


# ------------------------------------------------------- loss, trafo, data
LOSSES = ['unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh',
          'unbinned_pulse_and_dom_charge_pdf', 'dom_and_event_charge_pdf',
          'negative_binomial_charge_pdf',
          'negative_binomial_event_charge_pdf', 'normalized_dom_charge_pdf',
          'unbinned_charge_quantile_pdf']


def case_losses(m, rng):
    import tensorflow as tf
    from egenerator.loss.multi_loss import MultiLossModule
    from egenerator.loss.snowstorm import SnowstormPriorLossModule
    n_modes = 4
    snow = [('DOMEfficiency', 1), ('Absorption', 1),
            ('IceWavePlusModes_{:02d}', n_modes)]
    worlds = {}
    for kind in ['cascade', 'quantile']:
        kw = dict(extra=[]) if kind == 'cascade' else {}
        handler, model, sampler = md.build(
            kind, rng, charge=True, snowstorm=snow, time_exclusions=False,
            ranges=[(0.8, 1.2), (0.8, 1.2)] + [(-.3, .3)] * n_modes, **kw)
        batch = md.batch_dict(handler, md.make_batch(
            rng, sampler(2), quantiles=kind == 'quantile',
            time_exclusions=False))
        worlds[kind] = (handler, model, batch, model.get_tensors(
            batch, is_training=False))
    modules = []
    for name in LOSSES:
        extra = dict(min_charge_quantile=0.1, max_charge_quantile=0.9) \
            if 'quantile' in name else {}
        modules.append(md.make_loss(name, bool(rng.rand() < 0.5), **extra))
    prior = SnowstormPriorLossModule()
    prior.configure(config=dict(
        sigmas=[float(rng.uniform(0.01, 2)) for _ in range(n_modes)],
        uniform_parameters={'DOMEfficiency': [0.9, 1.1],
                            'Absorption': [0.85, 1.05]}))
    modules.append(prior)
    multi = MultiLossModule()
    usable = [x for x in modules if 'quantile' not in
              x.configuration.config['config'].get('loss_function_name', '')]
    multi.configure(loss_modules=[usable[i] for i in rng.permutation(
        len(usable))[:rng.randint(1, 5)]])
    modules.append(multi)

    def behaviour(c):
        handler, model, batch, result = worlds[
            'quantile' if 'quantile' in name else 'cascade']
        out = [c.get_loss(batch, result, handler.tensors, model=model)]
        # the order of unsorted terms is not specified
        out += sorted(c.get_loss(
            batch, result, handler.tensors, model=model,
            reduce_to_scalar=False),
            key=lambda v: (v.shape.as_list(), float(tf.reduce_sum(v))))
        out += c.get_loss(batch, result, handler.tensors, model=model,
                          reduce_to_scalar=False, sort_loss_terms=True)
        return [v.numpy() for v in out]

    for module in modules:
        name = module.configuration.config.get('config', {}).get(
            'loss_function_name', type(module).__name__)

        def check(a, b, how):
            m.event('loss_values')
            m.equal(len(a), len(b), 'loss-terms', component=name)
            for x, y in zip(a, b):
                m.close(y, x, 'loss', '{} {}'.format(name, how),
                        rtol=1e-5, atol=1e-5)
        save_and_load(m, rng, module, behaviour, name, check)


def case_trafo(m, rng):
    handler, trafo = md.setup(
        rng, md.cascade_values(rng, 30),
        param_log=[i == 5 or rng.rand() < 0.2 and i > 2 for i in range(7)],
        float_precision=str(rng.choice(['float32', 'float64'])))
    x = md.cascade_values(rng, 5)

    def behaviour(c):
        y = c.transform(x, 'x_parameters')
        return dict(y=y, z=c.inverse_transform(y, 'x_parameters'),
                    cov=c.inverse_transform_cov(np.eye(7), 'x_parameters'),
                    tf=c.transform(x + 0, 'x_parameters',
                                   bias_correction=False))
    save_and_load(m, rng, trafo, behaviour, 'trafo', check_tensors(
        m, 'trafo'))


def case_handler(m, rng):
    base = os.path.join(scratch(), 'c01_h{}'.format(rng.randint(2**31)))
    os.makedirs(base)
    events = ev.make_events(rng, 4, n_snowstorm=2)
    path = os.path.join(base, 'test.hdf5')
    ev.write_hdf(path, events)
    config = ev.handler_config(
        data=ev.data_settings(
            add_charge_quantiles=bool(rng.rand() < 0.5),
            float_precision=str(rng.choice(['float32', 'float64']))),
        label=ev.label_settings(num_snowstorm_params=int(rng.choice([0, 2]))),
        constraints=[['LabelsDeepLearning', 'cascade_energy', '>', 100.]]
        if rng.rand() < 0.5 else None)
    from egenerator.data.handler.modular import ModuleDataHandler
    handler = ModuleDataHandler()
    config['test_data'] = path
    m.call('configure', handler.configure, config=config)

    def behaviour(c):
        num, data = c.get_data_from_hdf(path)
        out = {'num': np.array(num)}
        for t, d in zip(c.tensors.list, data or ()):
            out['data_' + t.name] = np.asarray(d) if d is not None \
                else np.zeros(())
        frame = ev.make_frame(events[0])
        _, data = c.get_data_from_frame(frame)
        for t, d in zip(c.tensors.list, data or ()):
            out['frame_' + t.name] = np.asarray(d)
        m.event('handler_reads')
        for i, batch in enumerate(c.get_batch_generator(
                input_data=path, batch_size=2, num_splits=None,
                file_capacity=1, batch_capacity=2, num_jobs=1,
                num_add_files=0, num_repetitions=1,
                pick_random_files_forever=False, shuffle=False)
                if m.tier == 'thorough' else []):
            for t, d in zip(c.tensors.list, batch):
                out['batch{}_{}'.format(i, t.name)] = np.asarray(d)
        return out
    try:
        save_and_load(m, rng, handler, behaviour, 'data_handler',
                      check_tensors(m, 'data_handler'))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def case_manager(m, rng):
    """A complete manager including ensembles and its loss values."""
    handler, model, sampler = md.build('cascade', rng, charge=True)
    models = [model]
    for _ in range(rng.randint(0, 3)):
        other = type(model)()
        other.configure(config=model.configuration.config['config'],
                        data_trafo=model.data_trafo,
                        name='member{}'.format(len(models)))
        md.randomize(other, rng)
        models.append(other)
    manager = md.make_manager(handler, models)
    loss = md.make_loss('unbinned_pulse_and_dom_charge_pdf')
    data = md.make_batch(rng, sampler(2), time_exclusions=handler.tensors[
        'x_time_exclusions'].exists)
    batch = md.batch_tuple(handler, data, as_tensor=True)
    opt = dict(l1_regularization=0., l2_regularization=0.)

    def behaviour(c):
        out = {}
        with md.eager():
            out['loss'] = c.get_loss(batch, loss, opt,
                                     is_training=False).numpy()
        for i, mod in enumerate(c.models):
            for k, v in tensors_of(mod, handler, data).items():
                out['{}_{}'.format(i, k)] = v
        out['n'] = np.array(len(c.models))
        out['names'] = np.array([str(x.name) for x in c.models])
        m.event('loss_values')
        return out
    save_and_load(m, rng, manager, behaviour, 'manager[{}]'.format(
        len(models)), check_tensors(m, 'manager'), n_copies=2)


def cases(tier):
    single = ['cascade', 'systematic', 'quantile', 'segment', 'noise']
    out = [Case('trees', case_trees, reps=3, reps_thorough=100, n=8)]
    for kind in single + ['independent', 'muon', 'stochastic']:
        out.append(Case('model_' + kind, case_model, reps=1,
                        reps_thorough=20, kinds=[kind]))
    out += [
        Case('losses', case_losses, reps=1, reps_thorough=20),
        Case('trafo', case_trafo, reps=2, reps_thorough=30),
        Case('handler', case_handler, reps=2, reps_thorough=30),
        Case('manager', case_manager, reps=1, reps_thorough=20),
    ]
    return out
